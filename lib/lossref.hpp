// The documented losses at one point.
#ifndef VERIF_LOSSREF_HPP
#define VERIF_LOSSREF_HPP
#include <ev.hpp>

namespace cgp
{
template <typename T>
inline T loss_ref(const std::vector<T> &out, const std::vector<T> &y, bool ce)
{
    T r(0.);
    if (!ce) {
        for (std::size_t i = 0; i < out.size(); ++i) {
            const T d = out[i] - y[i];
            r = r + d * d;
        }
        return r / T(static_cast<double>(out.size()));
    }
    T max = out[0];
    for (auto &o : out)
        if (ev::as_double(o) > ev::as_double(max)) max = o;
    T sum(0.);
    for (auto &o : out) sum = sum + ev::r_exp(o - max);
    const T ls = ev::r_log(sum);
    for (std::size_t i = 0; i < out.size(); ++i) r = r - y[i] * ((out[i] - max) - ls);
    return r;
}
} // namespace cgp
#endif
