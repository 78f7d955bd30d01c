// Reference arithmetic for the oracles.
//
// ev::Ev is a long double together with a bound on how far a double computation of the same expression may be from
// it, so that an oracle can compare without guessing a tolerance: where the bound is useless (an overflow, a
// division by something that may be zero, a step whose argument may have either sign) the value is `bad` and the
// comparison is skipped. The documented kernels are written once, as templates, for Ev, for long double and for
// __float128 (the latter for finite differences).
#ifndef VERIF_EV_HPP
#define VERIF_EV_HPP
#include <cmath>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

#include <quadmath.h>

namespace ev
{
using ld = long double;
using q = __float128;

struct Ev {
    ld v = 0;
    ld e = 0;
    bool bad = false;
    Ev() = default;
    Ev(double x) : v(x), e(0), bad(!(std::abs(x) <= 1e300)) {}
    Ev(ld x, ld err, bool b) : v(x), e(err), bad(b)
    {
        if (!(std::abs(v) + e <= 1e300L)) bad = true;
    }
    friend std::ostream &operator<<(std::ostream &os, const Ev &x)
    {
        if (x.bad) return os << "undefined(" << static_cast<double>(x.v) << ")";
        return os << static_cast<double>(x.v) << "+-" << static_cast<double>(x.e);
    }
};
constexpr ld U = 2.3e-16L; // twice the unit roundoff of double
inline ld slack(ld v, ld k)
{
    const ld a = std::abs(v);
    return k * U * a + (a > 0 && a < 1e-290L ? 1e-305L : 0);
}
inline Ev operator+(const Ev &a, const Ev &b)
{
    return {a.v + b.v, a.e + b.e + slack(a.v, 1) + slack(b.v, 1), a.bad || b.bad};
}
inline Ev operator-(const Ev &a)
{
    return {-a.v, a.e, a.bad};
}
inline Ev operator-(const Ev &a, const Ev &b)
{
    return a + (-b);
}
inline Ev operator*(const Ev &a, const Ev &b)
{
    const ld v = a.v * b.v;
    return {v, std::abs(a.v) * b.e + std::abs(b.v) * a.e + a.e * b.e + slack(v, 2), a.bad || b.bad};
}
inline Ev operator/(const Ev &a, const Ev &b)
{
    const ld v = a.v / b.v, d = std::abs(b.v) - b.e;
    if (!(d > 0)) return {0, 0, true};
    return {v, (a.e + std::abs(v) * b.e) / d + slack(v, 2), a.bad || b.bad};
}
template <typename F>
inline Ev lift(const Ev &x, F f)
{
    const ld v = f(x.v);
    ld d = 0;
    if (x.e > 0) {
        for (ld t : {-1.L, -.5L, .5L, 1.L}) d = std::max(d, std::abs(f(x.v + t * x.e) - v));
    }
    return {v, d * 2 + slack(v, 8), x.bad || !std::isfinite(v) || !std::isfinite(d)};
}
inline Ev r_exp(const Ev &x)
{
    return lift(x, [](ld t) { return std::exp(t); });
}
inline Ev r_log(const Ev &x)
{
    if (!(x.v - x.e > 0)) return {0, 0, true};
    return lift(x, [](ld t) { return std::log(t); });
}
inline Ev r_sqrt(const Ev &x)
{
    if (x.v - x.e < 0) return {0, 0, true};
    return lift(x, [](ld t) { return std::sqrt(t); });
}
inline Ev r_sin(const Ev &x)
{
    if (std::abs(x.v) > 1e15L) return {0, 0, true};
    const ld v = std::sin(x.v);
    return {v, std::min(x.e, 2.L) + slack(v, 8), x.bad};
}
inline Ev r_cos(const Ev &x)
{
    if (std::abs(x.v) > 1e15L) return {0, 0, true};
    const ld v = std::cos(x.v);
    return {v, std::min(x.e, 2.L) + slack(v, 8), x.bad};
}
inline Ev r_tanh(const Ev &x)
{
    return lift(x, [](ld t) { return std::tanh(t); });
}
inline Ev r_abs(const Ev &x)
{
    return {std::abs(x.v), x.e, x.bad};
}
// -1, 0, 1; 2 if it cannot be told
inline int r_sign(const Ev &x)
{
    if (x.bad) return 2;
    if (x.v > x.e) return 1;
    if (x.v < -x.e) return -1;
    return x.e > 0 ? 2 : 0;
}
inline Ev r_undefined(const Ev &)
{
    return {0, 0, true};
}
// The hull of two possible values.
inline Ev r_either(const Ev &a, const Ev &b)
{
    return {a.v, std::max(a.e, b.e) + std::abs(a.v - b.v), a.bad || b.bad};
}

#define EV_REAL(R, EXP, LOG, SQRT, SIN, COS, TANH, ABS)                                                               \
    inline R r_exp(const R &x)                                                                                         \
    {                                                                                                                  \
        return EXP(x);                                                                                                 \
    }                                                                                                                  \
    inline R r_log(const R &x)                                                                                         \
    {                                                                                                                  \
        return LOG(x);                                                                                                 \
    }                                                                                                                  \
    inline R r_sqrt(const R &x)                                                                                        \
    {                                                                                                                  \
        return SQRT(x);                                                                                                \
    }                                                                                                                  \
    inline R r_sin(const R &x)                                                                                         \
    {                                                                                                                  \
        return SIN(x);                                                                                                 \
    }                                                                                                                  \
    inline R r_cos(const R &x)                                                                                         \
    {                                                                                                                  \
        return COS(x);                                                                                                 \
    }                                                                                                                  \
    inline R r_tanh(const R &x)                                                                                        \
    {                                                                                                                  \
        return TANH(x);                                                                                                \
    }                                                                                                                  \
    inline R r_abs(const R &x)                                                                                         \
    {                                                                                                                  \
        return ABS(x);                                                                                                 \
    }                                                                                                                  \
    inline int r_sign(const R &x)                                                                                      \
    {                                                                                                                  \
        return x > 0 ? 1 : (x < 0 ? -1 : (x == 0 ? 0 : 2));                                                            \
    }                                                                                                                  \
    inline R r_undefined(const R &)                                                                                    \
    {                                                                                                                  \
        return R(std::numeric_limits<double>::quiet_NaN());                                                            \
    }                                                                                                                  \
    inline R r_either(const R &a, const R &)                                                                           \
    {                                                                                                                  \
        return a;                                                                                                      \
    }
EV_REAL(ld, std::exp, std::log, std::sqrt, std::sin, std::cos, std::tanh, std::abs)
EV_REAL(q, expq, logq, sqrtq, sinq, cosq, tanhq, fabsq)
#undef EV_REAL

// How close to a kink or a singularity the last evaluations came (reset by the user).
inline double &margin()
{
    static double m = 1e300;
    return m;
}
inline double as_double(const Ev &x)
{
    return static_cast<double>(x.v);
}
inline double as_double(ld x)
{
    return static_cast<double>(x);
}
inline double as_double(q x)
{
    return static_cast<double>(x);
}
template <typename T>
inline void kink(const T &x)
{
    const double d = std::abs(as_double(x));
    if (!(d >= margin())) margin() = d;
}

inline const std::vector<std::string> &catalogue()
{
    static const std::vector<std::string> c
        = {"sum", "diff", "mul",  "div",  "pdiv",  "sin",  "cos",  "log",    "exp",    "gaussian",    "sqrt", "psqrt",
           "sig", "tanh", "ReLu", "ELU",  "ISRU",  "sin_nu", "cos_nu", "gaussian_nu", "inv_sum", "abs", "step"};
    return c;
}
inline const std::vector<std::string> &activations()
{
    static const std::vector<std::string> c = {"sig", "tanh", "ReLu", "ELU", "ISRU", "sum", "sin_nu", "cos_nu", "gaussian_nu", "inv_sum", "abs", "step"};
    return c;
}

// A function of one argument as used in texts: the activations by their printed name, and the elementary functions.
template <typename T>
inline T call1(const std::string &f, const T &s)
{
    const T one(1.), zero(0.);
    if (f == "exp") return r_exp(s);
    if (f == "sin") return r_sin(s);
    if (f == "cos") return r_cos(s);
    if (f == "tanh") return r_tanh(s);
    if (f == "log") {
        kink(s);
        return r_log(s);
    }
    if (f == "sqrt") {
        kink(s);
        return r_sqrt(s);
    }
    if (f == "abs") {
        kink(s);
        return r_abs(s);
    }
    if (f == "sig") return one / (one + r_exp(-s));
    if (f == "ISRU") return s / r_sqrt(one + s * s);
    if (f == "ReLu" || f == "ELU") {
        kink(s);
        const int g = r_sign(s);
        const T neg = f == "ReLu" ? zero : r_exp(s) - one;
        return g == 2 ? r_either(s, neg) : (g > 0 ? s : neg);
    }
    if (f == "step") {
        // At zero the documentation and the program disagree: nothing is required there.
        kink(s);
        const int g = r_sign(s);
        return g == 1 ? one : (g == -1 ? zero : r_undefined(s));
    }
    throw std::runtime_error("unknown function: " + f);
}

// Products whose partial results, in some order, leave the range of double.
template <typename T>
inline bool order_matters(const std::vector<T> &)
{
    return false;
}
inline bool order_matters(const std::vector<Ev> &in)
{
    ld span = 1;
    for (const auto &x : in) {
        const ld a = std::abs(x.v);
        if (a > 0) span *= a < 1 ? 1 / a : a;
    }
    return !(span < 1e290L);
}

template <typename T>
inline T ref_kernel(const std::string &k, const std::vector<T> &in)
{
    const T x = in.at(0);
    if (k == "sin" || k == "cos" || k == "exp" || k == "log" || k == "sqrt") return call1(k, x);
    if (k == "gaussian") return r_exp(-(x * x));
    if (k == "psqrt") {
        kink(x);
        return r_sqrt(r_abs(x));
    }
    if ((k == "mul" || k == "div" || k == "pdiv") && order_matters(in)) return r_undefined(x);
    if (k == "mul" || k == "diff") {
        T r = x;
        for (std::size_t i = 1; i < in.size(); ++i) r = k == "mul" ? r * in[i] : r - in[i];
        return r;
    }
    if (k == "div" || k == "pdiv") {
        T d(1.);
        for (std::size_t i = 1; i < in.size(); ++i) d = d * in[i];
        if (in.size() > 1u) kink(d);
        if (k == "pdiv" && r_sign(d) == 0) return T(1.);
        return x / d;
    }
    T s = x;
    for (std::size_t i = 1; i < in.size(); ++i) s = s + in[i];
    if (k == "sum") return s;
    if (k == "inv_sum") return -s;
    if (k == "gaussian_nu") return r_exp(-(s * s));
    if (k == "sin_nu") return r_sin(s);
    if (k == "cos_nu") return r_cos(s);
    return call1(k, s);
}

// Is `got` what a double computation of x may give?
inline bool matches(double got, const Ev &x, double factor = 4)
{
    if (x.bad) return true;
    return std::abs(static_cast<ld>(got) - x.v) <= factor * x.e + 1e-300L;
}
} // namespace ev
#endif
