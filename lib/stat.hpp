// Do counts follow a distribution? Tests that accuse what follows it once in 1e13.
#ifndef VERIF_STAT_HPP
#define VERIF_STAT_HPP
#include <algorithm>
#include <cmath>
#include <map>
#include <vector>

#include <boost/math/special_functions/gamma.hpp>

namespace chi
{
constexpr double tiny = 1e-13;
// The probability that counts are as far from those expected; bins of fewer than 30 are put together.
inline double fit(const std::vector<double> &got, const std::vector<double> &expected)
{
    double x = 0, g = 0, e = 0;
    int bins = 0;
    auto close = [&] {
        x += (g - e) * (g - e) / e;
        ++bins;
        g = e = 0;
    };
    for (std::size_t i = 0; i < got.size(); ++i) {
        g += got[i];
        e += expected[i];
        if (e >= 30) close();
    }
    if (e > 0) {
        if (e >= 30 || bins == 0) close();
        else x += (g - e) * (g - e) / std::max(e, 30.); // weaker than it could be
    }
    return bins < 2 ? 1. : boost::math::gamma_q((bins - 1) / 2. + (e > 0 ? 0.5 : 0.), x / 2);
}
inline double even(const std::vector<double> &got)
{
    double n = 0;
    for (double v : got) n += v;
    return fit(got, std::vector<double>(got.size(), n / static_cast<double>(got.size())));
}
// The same for two samples, by value.
inline double alike(const std::map<unsigned, double> &a, const std::map<unsigned, double> &b)
{
    std::map<unsigned, std::pair<double, double>> all;
    double na = 0, nb = 0;
    for (auto &[k, v] : a) all[k].first += v, na += v;
    for (auto &[k, v] : b) all[k].second += v, nb += v;
    if (na == 0 || nb == 0) return 1.;
    std::vector<std::pair<double, double>> bins{{0, 0}};
    for (auto &[k, v] : all) {
        bins.back().first += v.first;
        bins.back().second += v.second;
        if (bins.back().first + bins.back().second >= 60) bins.push_back({0, 0});
    }
    if (bins.size() > 1) {
        bins[bins.size() - 2].first += bins.back().first;
        bins[bins.size() - 2].second += bins.back().second;
        bins.pop_back();
    }
    if (bins.size() < 2) return 1.;
    double x = 0;
    for (auto &[p, q] : bins) {
        const double d = std::sqrt(nb / na) * p - std::sqrt(na / nb) * q;
        x += d * d / (p + q);
    }
    return boost::math::gamma_q((static_cast<double>(bins.size()) - 1) / 2., x / 2);
}
} // namespace chi
#endif
