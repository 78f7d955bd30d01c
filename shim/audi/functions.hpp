// Offline stand-in for AuDi's functions.hpp: elementary functions on doubles, vectorized doubles and gduals.
#ifndef AUDI_FUNCTIONS_HPP
#define AUDI_FUNCTIONS_HPP
#include <cmath>
#include <type_traits>
#include <vector>

#include <audi/gdual.hpp>
#include <audi/vectorized.hpp>

namespace audi
{
namespace detail
{
// Taylor coefficients (in h) of f(c + h) up to order n.
using ser = std::vector<double>;
inline ser s_mul(const ser &a, const ser &b)
{
    ser r(a.size(), 0.);
    for (std::size_t i = 0; i < a.size(); ++i)
        for (std::size_t j = 0; i + j < a.size(); ++j) r[i + j] += a[i] * b[j];
    return r;
}
inline ser s_inv(const ser &a)
{
    ser r(a.size(), 0.);
    r[0] = 1. / a[0];
    for (std::size_t i = 1; i < a.size(); ++i) {
        double s = 0.;
        for (std::size_t j = 1; j <= i; ++j) s += a[j] * r[i - j];
        r[i] = -s / a[0];
    }
    return r;
}
inline ser s_var(double c, unsigned n)
{
    ser r(n + 1u, 0.);
    r[0] = c;
    if (n) r[1] = 1.;
    return r;
}
inline ser s_integ(const ser &d, double c0)
{
    ser r(d.size(), 0.);
    r[0] = c0;
    for (std::size_t i = 1; i < d.size(); ++i) r[i] = d[i - 1] / static_cast<double>(i);
    return r;
}
inline ser s_pow(double c, unsigned n, double alpha)
{
    ser r(n + 1u);
    r[0] = std::pow(c, alpha);
    double b = 1.;
    for (unsigned i = 1; i <= n; ++i) {
        b *= (alpha - (i - 1.)) / i;
        r[i] = b == 0. ? 0. : b * std::pow(c, alpha - i);
    }
    return r;
}
inline ser s_exp(double c, unsigned n)
{
    ser r(n + 1u);
    r[0] = std::exp(c);
    for (unsigned i = 1; i <= n; ++i) r[i] = r[i - 1] / i;
    return r;
}
inline ser s_log(double c, unsigned n)
{
    ser r(n + 1u);
    r[0] = std::log(c);
    double p = 1.;
    for (unsigned i = 1; i <= n; ++i) {
        p /= c;
        r[i] = (i % 2 ? 1. : -1.) * p / i;
    }
    return r;
}
inline ser s_cyc(unsigned n, double f0, double f1, double sign)
{
    // f'' = sign * f
    ser r(n + 1u);
    r[0] = f0;
    if (n) r[1] = f1;
    for (unsigned i = 2; i <= n; ++i) r[i] = sign * r[i - 2] / (i * (i - 1.));
    return r;
}
inline ser s_sqrt(double c, unsigned n)
{
    ser r = s_pow(c, n, 0.5);
    r[0] = std::sqrt(c);
    return r;
}
// t' = 1 + sign * t^2
inline ser s_tan(double t0, unsigned n, double sign)
{
    ser r(n + 1u, 0.);
    r[0] = t0;
    for (unsigned i = 0; i < n; ++i) {
        double s = i == 0 ? 1. : 0.;
        for (unsigned j = 0; j <= i; ++j) s += sign * r[j] * r[i - j];
        r[i + 1] = s / (i + 1.);
    }
    return r;
}
// 1 + sign * x^2
inline ser s_quad(double c, unsigned n, double k0, double sign)
{
    ser v = s_var(c, n), q = s_mul(v, v);
    for (auto &x : q) x *= sign;
    q[0] += k0;
    return q;
}
inline ser s_powser(const ser &a, double alpha)
{
    // a^alpha with a[0] > 0
    ser r(a.size(), 0.);
    r[0] = std::pow(a[0], alpha);
    for (std::size_t i = 1; i < a.size(); ++i) {
        double s = 0.;
        for (std::size_t j = 1; j <= i; ++j)
            s += (alpha * static_cast<double>(j) - static_cast<double>(i - j)) * a[j] * r[i - j];
        r[i] = s / (static_cast<double>(i) * a[0]);
    }
    return r;
}
inline ser s_erf(double c, unsigned n)
{
    // erf' = 2/sqrt(pi) exp(-x^2); g = exp(-x^2): g' = -2 x g
    ser g(n + 1u, 0.);
    g[0] = std::exp(-c * c);
    for (unsigned i = 0; i < n; ++i) g[i + 1] = -2. * (c * g[i] + (i ? g[i - 1] : 0.)) / (i + 1.);
    for (auto &x : g) x *= 1.1283791670955125739;
    return s_integ(g, std::erf(c));
}

template <typename F>
inline gdual<double> apply(const gdual<double> &d, F f)
{
    return d.compose([f](double c, unsigned n) { return f(c, n); });
}
template <typename F>
inline gdual<vectorized<double>> apply(const gdual<vectorized<double>> &d, F f)
{
    return d.compose([f](const vectorized<double> &c, unsigned n) {
        std::vector<std::vector<double>> t(n + 1u, std::vector<double>(c.size()));
        for (std::size_t i = 0; i < c.size(); ++i) {
            const ser s = f(c[i], n);
            for (unsigned k = 0; k <= n; ++k) t[k][i] = s[k];
        }
        std::vector<vectorized<double>> r;
        for (const auto &v : t) r.emplace_back(v);
        return r;
    });
}
} // namespace detail

#define AUDI_SHIM_FUN(name, series)                                                                                    \
    inline double name(double x)                                                                                       \
    {                                                                                                                  \
        return std::name(x);                                                                                           \
    }                                                                                                                  \
    inline vectorized<double> name(vectorized<double> v)                                                               \
    {                                                                                                                  \
        for (auto &x : v) x = std::name(x);                                                                            \
        return v;                                                                                                      \
    }                                                                                                                  \
    template <typename Cf>                                                                                             \
    inline gdual<Cf> name(const gdual<Cf> &d)                                                                          \
    {                                                                                                                  \
        using namespace detail;                                                                                        \
        return apply(d, [](double c, unsigned n) -> ser { return series; });                                           \
    }

AUDI_SHIM_FUN(exp, s_exp(c, n))
AUDI_SHIM_FUN(log, s_log(c, n))
AUDI_SHIM_FUN(sin, s_cyc(n, std::sin(c), std::cos(c), -1.))
AUDI_SHIM_FUN(cos, s_cyc(n, std::cos(c), -std::sin(c), -1.))
AUDI_SHIM_FUN(sinh, s_cyc(n, std::sinh(c), std::cosh(c), 1.))
AUDI_SHIM_FUN(cosh, s_cyc(n, std::cosh(c), std::sinh(c), 1.))
AUDI_SHIM_FUN(tan, s_tan(std::tan(c), n, 1.))
AUDI_SHIM_FUN(tanh, s_tan(std::tanh(c), n, -1.))
AUDI_SHIM_FUN(sqrt, s_sqrt(c, n))
AUDI_SHIM_FUN(cbrt, s_pow(c, n, 1. / 3.))
AUDI_SHIM_FUN(atan, s_integ(s_inv(s_quad(c, n, 1., 1.)), std::atan(c)))
AUDI_SHIM_FUN(atanh, s_integ(s_inv(s_quad(c, n, 1., -1.)), std::atanh(c)))
AUDI_SHIM_FUN(asin, s_integ(s_powser(s_quad(c, n, 1., -1.), -0.5), std::asin(c)))
AUDI_SHIM_FUN(asinh, s_integ(s_powser(s_quad(c, n, 1., 1.), -0.5), std::asinh(c)))
AUDI_SHIM_FUN(acosh, s_integ(s_powser(s_quad(c, n, -1., 1.), -0.5), std::acosh(c)))
AUDI_SHIM_FUN(erf, s_erf(c, n))
#undef AUDI_SHIM_FUN

inline double acos(double x)
{
    return std::acos(x);
}
template <typename Cf>
inline gdual<Cf> acos(const gdual<Cf> &d)
{
    return 1.5707963267948966 - asin(d);
}

inline double abs(double x)
{
    return std::abs(x);
}
inline gdual<double> abs(const gdual<double> &d)
{
    return d.constant_cf() >= 0. ? d : -d;
}
inline gdual<vectorized<double>> abs(const gdual<vectorized<double>> &d)
{
    vectorized<double> s = d.constant_cf();
    for (auto &x : s) x = x >= 0. ? 1. : -1.;
    return d * gdual<vectorized<double>>(s);
}

template <typename A, typename B,
          std::enable_if_t<std::is_arithmetic<A>::value && std::is_arithmetic<B>::value, int> = 0>
inline double pow(A a, B b)
{
    return std::pow(static_cast<double>(a), static_cast<double>(b));
}
template <typename Cf, typename B, std::enable_if_t<std::is_arithmetic<B>::value, int> = 0>
inline gdual<Cf> pow(const gdual<Cf> &d, B b)
{
    const double e = static_cast<double>(b);
    if (e >= 0. && e == std::floor(e) && e < 1e4) {
        gdual<Cf> r(1.);
        for (int i = 0; i < static_cast<int>(e); ++i) r *= d;
        return r;
    }
    return detail::apply(d, [e](double c, unsigned n) { return detail::s_pow(c, n, e); });
}
template <typename Cf>
inline gdual<Cf> pow(double a, const gdual<Cf> &d)
{
    return exp(d * std::log(a));
}
template <typename Cf>
inline gdual<Cf> pow(const gdual<Cf> &a, const gdual<Cf> &b)
{
    return exp(b * log(a));
}
} // namespace audi
#endif
