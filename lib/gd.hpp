// Taylor numbers of either kind: building them, and reading them along a direction.
#ifndef VERIF_GD_HPP
#define VERIF_GD_HPP
#include <functional>
#include <string>
#include <type_traits>
#include <vector>

#include <audi/audi.hpp>

namespace gd
{
inline double lane(const double &x, std::size_t)
{
    return x;
}
inline double lane(const audi::vectorized<double> &x, std::size_t p)
{
    return x.size() == 1 ? x[0] : x[p];
}
template <typename T>
inline T var(const std::vector<double> &v, const std::string &name, unsigned order)
{
    if constexpr (std::is_same<T, audi::gdual_d>::value)
        return T(v[0], name, order);
    else
        return T(v, name, order);
}
template <typename T>
inline T con(const std::vector<double> &v)
{
    if constexpr (std::is_same<T, audi::gdual_d>::value)
        return T(v[0]);
    else
        return T(v);
}
// Coefficients, by degree, along the direction d of the variables s0, s1, ...
template <typename G>
inline std::vector<double> along(const G &g0, unsigned order, const std::vector<double> &d, std::size_t pt)
{
    G g(g0);
    std::vector<std::string> sym;
    for (std::size_t i = 0; i < d.size(); ++i) sym.push_back("ds" + std::to_string(i));
    std::vector<double> r(order + 1, 0.);
    g.extend_symbol_set(sym);
    std::vector<unsigned> k(d.size(), 0);
    const unsigned top = std::min(order, g.get_order());
    std::function<void(std::size_t, unsigned, double)> rec = [&](std::size_t i, unsigned used, double w) {
        if (i == d.size()) {
            r[used] += w * lane(g.find_cf(k), pt);
            return;
        }
        double p = 1;
        for (unsigned a = 0; used + a <= top; ++a) {
            k[i] = a;
            rec(i + 1, used + a, w * p);
            p *= d[i];
        }
        k[i] = 0;
    };
    rec(0, 0, 1.);
    return r;
}
} // namespace gd
#endif
