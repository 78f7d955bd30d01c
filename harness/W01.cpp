// W01: every kernel computes its documented function for any number of inputs.
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <dcgp/kernel_set.hpp>
#include <ev.hpp>
#include <pbt.hpp>

using pbt::Case;
using pbt::Gen;
using ev::Ev;

static const std::set<std::string> UNARY = {"sin", "cos", "exp", "log", "sqrt", "psqrt", "gaussian"};

static std::vector<double> inputs(Gen &g, Case &c, unsigned n)
{
    std::vector<double> v;
    const auto mode = g.raw(6);
    for (unsigned i = 0; i < n; ++i) {
        switch (mode) {
            case 0:
                v.push_back(g.real(-3, 3));
                break;
            case 1: // dyadic: sums are exact
                v.push_back((static_cast<double>(g.raw(4096)) - 2048.) / 64.);
                break;
            case 2: // very different magnitudes
                v.push_back((g.flip() ? -1 : 1) * std::ldexp(1. + g.real(0, 1), g.in<int>(-60, 60)));
                break;
            case 3: // cancelling
                v.push_back(i > 0 && g.flip() ? -v[g.raw(i - 1)] : g.real(-100, 100));
                break;
            case 4:
                v.push_back(g.any_double());
                break;
            case 6:
                v.push_back(g.real(-60, 60));
                break;
            default:
                v.push_back(static_cast<double>(g.in<int>(-3, 3)));
        }
    }
    c.label("inputs " + std::to_string(mode));
    return v;
}

static void formula(Gen &g, Case &c)
{
    const std::string name = g.pick(ev::catalogue());
    unsigned n = g.chance(1, 25) ? g.u(13, 70) : g.small(1, 12);
    if (name == "pdiv" && n < 2) n = 2; // a protected division of a single number is not specified
    std::vector<double> v = inputs(g, c, n);
    if (UNARY.count(name)) {
        // inputs beyond the first do not count, whatever they are
        for (unsigned i = 1; i < n; ++i)
            if (g.chance(1, 3)) v[i] = g.any_double();
    }
    dcgp::kernel_set<double> ks({name});
    c.note(name, v);
    const std::vector<double> copy = v;
    const double got = ks[0](v);
    std::vector<Ev> ve(v.begin(), v.end());
    const Ev want = ev::ref_kernel(name, ve);
    c.label(name + (want.bad ? " (undefined)" : ""));
    c.nontrivial(!want.bad);
    c.require(ev::matches(got, want), "value-" + name, name, v, " is ", got, ", documented: ", want);
    for (unsigned i = 0; i < n; ++i)
        c.require(v[i] == copy[i] || std::isnan(copy[i]), "inputs-changed", "the inputs were changed by ", name);
    const double again = ks[0](v);
    c.require(got == again || (std::isnan(got) && std::isnan(again)), "repeat", name, v, " is ", got, " and then ", again);
}

// A protected kernel falls back exactly when the plain operation has no finite value.
static void protection(Gen &g, Case &c)
{
    const unsigned n = g.small(2, 6);
    std::vector<double> v;
    for (unsigned i = 0; i < n; ++i) v.push_back(g.chance(1, 3) ? 0. : (g.flip() ? g.any_double() : g.real(-2, 2)));
    if (g.chance(1, 8)) v[0] = 0;
    dcgp::kernel_set<double> ks({"pdiv", "psqrt"});
    c.note("pdiv", v);
    const double got = ks[0](v);
    long double d = 1, lo = 1e4000L, hi = 0;
    bool nan = std::isnan(v[0]);
    for (unsigned i = 1; i < n; ++i) {
        d *= v[i];
        nan = nan || std::isnan(v[i]);
        lo = std::min(lo, std::abs(d));
        hi = std::max(hi, std::abs(d));
    }
    bool zero = false, inf = std::isinf(v[0]), dinf = false;
    for (unsigned i = 1; i < n; ++i) {
        zero = zero || v[i] == 0;
        dinf = dinf || std::isinf(v[i]);
    }
    // Only where the order of the operations cannot decide: all magnitudes well inside the range of double.
    long double mlo = 1, mhi = 1;
    for (unsigned i = 1; i < n; ++i) {
        if (v[i] == 0 || !std::isfinite(v[i])) continue;
        mlo *= std::min(1.L, std::abs(static_cast<long double>(v[i])));
        mhi *= std::max(1.L, std::abs(static_cast<long double>(v[i])));
    }
    const bool tame = mlo > 1e-150L && mhi < 1e150L && (v[0] == 0 || !std::isfinite(v[0]) || (std::abs(v[0]) < 1e150 && std::abs(v[0]) > 1e-150));
    if (nan || (inf && !dinf && !zero) || (inf && dinf && !nan) || (tame && zero) || (zero && v[0] == 0)) {
        c.label("fallback");
        c.nontrivial();
        c.require(got == 1, "pdiv-fallback", "pdiv", v, " is ", got, " although the division has no finite value");
    } else if (tame && std::isfinite(v[0]) && !zero && !dinf) {
        c.label("plain");
        c.nontrivial();
        c.require(std::abs(got - v[0] / d) <= 1e-14L * std::abs(v[0] / d), "pdiv-plain", "pdiv", v, " is ", got, ", the division gives ", static_cast<double>(v[0] / d));
    } else {
        c.label("other");
        c.require(std::isfinite(got), "pdiv-finite", "pdiv", v, " is ", got);
    }
    const double x = v[0], s = ks[1]({x});
    if (std::isfinite(x)) c.require(std::abs(s - std::sqrt(std::abs(x))) <= 1e-15 * s, "psqrt", "psqrt of ", x, " is ", s);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "W01";
    p.rule = "random kernel of the catalogue, one to seventy inputs (dyadic, of very different magnitudes, cancelling, integers, any double), compared with the documented "
             "formula in long double with a running bound on what double arithmetic may lose; protected kernels on zeros, infinities and NaN; non-trivial: the "
             "formula has a value there (no overflow, no singularity within rounding); counted distinct by choice sequence";
    p.subs = {{"formula", 400000, 8000000, formula}, {"protection", 100000, 2000000, protection}};
    p.assumptions = {"step at exactly zero and a protected division of a single number are not specified"};
    p.case_cpu_s = 20;
    return pbt::run(argc, argv, p);
}
