// G01: synthetic data sets are the documented functions on the documented points.
// PROBES: HAVE_1D HAVE_FORMULAS
#include <dcgp/gym.hpp>
#ifndef PROBE_ONLY
#include <dcgp/rng.hpp>
#include <mt.hpp>
#include <pbt.hpp>
#endif
#include <functional>
#include <string>
#include <vector>
using VV = std::vector<std::vector<double>>;
#ifdef HAVE_1D
inline double f1d(const std::vector<double> &);
inline void call_1d(VV &p, VV &l, double a, double b, unsigned n)
{
    dcgp::gym::detail::generate_1Ddata(p, l, f1d, a, b, n);
}
#ifdef PROBE_ONLY
inline double f1d(const std::vector<double> &x)
{
    return x[0];
}
#endif
#endif
#ifdef HAVE_FORMULAS
struct Formula {
    const char *name;
    double (*f)(const std::vector<double> &);
};
inline const std::vector<Formula> &formulas()
{
    namespace d = dcgp::gym::detail;
    static const std::vector<Formula> v
        = {{"koza_quintic", d::koza_quintic}, {"P1", d::P1}, {"P2", d::P2}, {"P3", d::P3}, {"P4", d::P4}, {"P5", d::P5}, {"P6", d::P6}, {"P7", d::P7},
           {"kotanchek", d::kotanchek}, {"salutowicz", d::salutowicz}, {"salutowicz2d", d::salutowicz2d}, {"uball5d", d::uball5d}, {"ratpol3d", d::ratpol3d},
           {"sinecosine", d::sinecosine}, {"ripple", d::ripple}, {"ratpol2d", d::ratpol2d}};
    return v;
}
#endif
#ifndef PROBE_ONLY
using pbt::Case;
using pbt::Gen;
using R = long double;
static const R PI = 3.14159265358979323846264338327950288L, E = 2.71828182845904523536028747135266250L;
static R p(R x, int n)
{
    R r = 1;
    while (n-- > 0) r *= x;
    return r;
}

struct Problem {
    const char *name;
    void (*gen)(VV &, VV &);
    unsigned n;
    std::vector<std::pair<double, double>> range; // one for each input
    bool random;
    R (*f)(const std::vector<R> &);
};
// From the documentation of the data sets and the papers cited there.
static const std::vector<Problem> &problems()
{
    using V = const std::vector<R> &;
    namespace g = dcgp::gym;
    static const std::vector<Problem> v = {
        {"koza_quintic", g::generate_koza_quintic, 10, {{-3, 3}}, false, [](V x) -> R { return p(x[0], 5) - 2 * p(x[0], 3) + x[0]; }},
        {"P1", g::generate_P1, 10, {{1, 3}}, false, [](V x) -> R { return p(x[0], 5) - PI * p(x[0], 3) + x[0]; }},
        {"P2", g::generate_P2, 10, {{0.1, 5}}, false, [](V x) -> R { return p(x[0], 5) - PI * p(x[0], 3) + 2 * PI / x[0]; }},
        {"P3", g::generate_P3, 10, {{-0.9, 1}}, false, [](V x) -> R { return (E * p(x[0], 5) + p(x[0], 3)) / (x[0] + 1); }},
        {"P4", g::generate_P4, 10, {{-1, 1}}, false, [](V x) -> R { return sinl(PI * x[0]) + 1 / x[0]; }},
        {"P5", g::generate_P5, 10, {{1, 3}}, false, [](V x) -> R { return E * p(x[0], 5) - PI * p(x[0], 3) + x[0]; }},
        {"P6", g::generate_P6, 10, {{-2.1, 1}}, false, [](V x) -> R { return (E * x[0] * x[0] - 1) / (PI * (x[0] + 2)); }},
        {"P7", g::generate_P7, 10, {{-1, 1}}, false, [](V x) -> R { return cosl(PI * x[0]) + sinl(E * x[0]); }},
        {"kotanchek", g::generate_kotanchek, 100, {{0.3, 4}, {0.3, 4}}, true,
         [](V x) -> R { return expl(-p(x[0] - 1, 2)) / (1.2L + p(x[1] - 2.5L, 2)); }},
        {"salutowicz", g::generate_salutowicz, 100, {{0.05, 10}}, false,
         [](V x) -> R { return expl(-x[0]) * p(x[0], 3) * cosl(x[0]) * sinl(x[0]) * (cosl(x[0]) * p(sinl(x[0]), 2) - 1); }},
        {"salutowicz2d", g::generate_salutowicz2d, 601, {{0.05, 10}, {0.05, 10}}, true,
         [](V x) -> R { return expl(-x[0]) * p(x[0], 3) * cosl(x[0]) * sinl(x[0]) * (cosl(x[0]) * p(sinl(x[0]), 2) - 1) * (x[1] - 5); }},
        {"uball5d", g::generate_uball5d, 1024, {{0.05, 6.05}, {0.05, 6.05}, {0.05, 6.05}, {0.05, 6.05}, {0.05, 6.05}}, true,
         [](V x) -> R {
             R s = 5;
             for (int i = 0; i < 5; ++i) s += p(x[static_cast<std::size_t>(i)] - 3, 2);
             return 10 / s;
         }},
        {"ratpol3d", g::generate_ratpol3d, 300, {{0.05, 2}, {1, 2}, {0.05, 2}}, true,
         [](V x) -> R { return 30 * (x[0] - 1) * (x[2] - 1) / (p(x[1], 2) * (x[0] - 10)); }},
        {"sinecosine", g::generate_sinecosine, 30, {{0.1, 5.9}, {0.1, 5.9}}, true, [](V x) -> R { return 6 * sinl(x[0]) * cosl(x[1]); }},
        {"ripple", g::generate_ripple, 300, {{0.05, 6.05}, {0.05, 6.05}}, true,
         [](V x) -> R { return (x[0] - 3) * (x[1] - 3) + 2 * sinl((x[0] - 4) * (x[1] - 4)); }},
        {"ratpol2d", g::generate_ratpol2d, 50, {{0.05, 6.05}, {0.05, 6.05}}, true,
         [](V x) -> R { return (p(x[0] - 3, 4) + p(x[1] - 3, 3) - (x[1] - 3)) / (p(x[1] - 2, 4) + 10); }},
    };
    return v;
}
static bool close(double a, R b, double tol)
{
    return std::isfinite(a) && std::abs(static_cast<double>(a - b)) <= tol * std::max(1., std::abs(static_cast<double>(b)));
}
static void verify(Case &c, const Problem &q, const VV &pts, const VV &lab)
{
    const std::string n = q.name;
    c.require(pts.size() == q.n && lab.size() == q.n, n + "-count", n, ": ", pts.size(), " points and ", lab.size(), " labels, documented are ", q.n);
    RefMT mt(32);
    for (unsigned i = 0; i < q.n; ++i) {
        c.require(pts[i].size() == q.range.size() && lab[i].size() == 1, n + "-dimension", n, ": point ", i, " has ", pts[i].size(), " inputs and ", lab[i].size(), " outputs");
        std::vector<R> x;
        for (std::size_t j = 0; j < q.range.size(); ++j) {
            const double a = q.range[j].first, b = q.range[j].second, w = b - a;
            const double e = q.random ? mt.uniform(a, b) : a + w * i / (q.n - 1.);
            c.require(std::abs(pts[i][j] - e) <= 1e-11 * std::max(1., std::abs(e)), n + "-points", n, ": input ", j, " of point ", i, " is ", pts[i][j], ", expected ", e);
            x.push_back(static_cast<R>(pts[i][j]));
        }
        const R e = q.f(x);
        c.require(close(lab[i][0], e, 1e-9), n + "-labels", n, ": label ", i, " is ", lab[i][0], ", the documented function at ", pts[i], " is ", static_cast<double>(e));
    }
}
static VV junk(Gen &g)
{
    VV v;
    switch (g.u(0, 3)) {
        case 0:
            break;
        case 1:
            v.assign(g.u(0, 40), std::vector<double>(g.u(0, 4), 7.));
            break;
        case 2:
            v.assign(2000, std::vector<double>(1, -1.));
            break;
        default:
            v.reserve(g.u(0, 3000));
    }
    return v;
}
// Any order of calls, into vectors with a past, with the global random device and other data sets in between.
static void history(Gen &g, Case &c)
{
    const auto &P = problems();
    const unsigned len = g.u(1, 4);
    VV pts = junk(g), lab = junk(g);
    unsigned seen = 0;
    std::size_t which = 0;
    for (unsigned k = 0; k < len; ++k) {
        if (k == 0 || !g.chance(1, 3)) which = g.raw(P.size() - 1); // else the same one again
        const auto &q = P[which];
        const unsigned between = g.u(0, 4);
        c.note(between == 0 ? "same vectors " : "vectors replaced ", q.name);
        switch (between) {
            case 1:
                pts = junk(g);
                lab = junk(g);
                break;
            case 2:
                dcgp::random_device::set_seed(g.seed());
                (void)dcgp::random_device::next();
                break;
            case 3:
                if (!pts.empty() && !pts[0].empty()) pts[0][0] = 1e9;
                if (!lab.empty()) lab.back() = {1, 2, 3};
                break;
            case 4:
                std::srand(g.seed());
                pts = VV();
                break;
            default:
                break;
        }
        q.gen(pts, lab);
        verify(c, q, pts, lab);
        ++seen;
    }
    c.nontrivial(seen > 1);
}
#ifdef HAVE_FORMULAS
static void formula(Gen &g, Case &c)
{
    const auto &F = formulas();
    const auto &f = F[g.raw(F.size() - 1)];
    const Problem *q = nullptr;
    for (auto &x : problems()) {
        if (std::string(x.name) == f.name) q = &x;
    }
    std::vector<double> x;
    std::vector<R> xr;
    for (auto &r : q->range) {
        x.push_back(g.real(r.first, r.second));
        xr.push_back(static_cast<R>(x.back()));
    }
    const R e = q->f(xr);
    const double v = f.f(x);
    c.note(q->name, " at ", x);
    if (!std::isfinite(static_cast<double>(e)) || std::abs(static_cast<double>(e)) > 1e6) return; // at a pole
    c.nontrivial();
    c.label(q->name);
    c.require(close(v, e, 1e-8), std::string(q->name) + "-labels", q->name, " at ", x, " is ", v, ", the documented function is ", static_cast<double>(e));
}
#endif
#ifdef HAVE_1D
static int g_kind;
static double g_a, g_b;
static long g_calls;
inline double f1d(const std::vector<double> &x)
{
    ++g_calls;
    if (x.size() != 1) return 1e300;
    switch (g_kind) {
        case 0:
            return g_a + g_b * x[0];
        case 1:
            return g_a * x[0] * x[0] - g_b;
        default:
            return std::sin(g_a * x[0]) + g_b;
    }
}
static void grid(Gen &g, Case &c)
{
    g_kind = g.in(0, 2);
    g_a = g.real(-5, 5);
    g_b = g.real(-5, 5);
    const unsigned mode = g.u(0, 3);
    double lb = g.real(-100, 100), ub = g.real(-100, 100);
    if (mode == 0) ub = lb + g.real(0, 1);
    if (mode == 1) {
        lb *= 1e-6;
        ub *= 1e-6;
    }
    if (mode == 2) {
        lb *= 1e6;
        ub *= 1e6;
    }
    unsigned n = g.chance(1, 20) ? g.u(2, 3000) : g.small(2, 60);
    if (g.chance(1, 30)) n = 0;
    c.note("function ", g_kind, " a=", g_a, " b=", g_b, " on [", lb, ",", ub, "] at ", n, " points");
    c.nontrivial(n > 2 && lb != ub);
    VV pts = junk(g), lab = junk(g);
    call_1d(pts, lab, lb, ub, n);
    c.require(pts.size() == n && lab.size() == n, "grid-count", pts.size(), " points and ", lab.size(), " labels, asked for ", n);
    const R w = static_cast<R>(ub) - static_cast<R>(lb);
    const double tol = 1e-11 * std::max({std::abs(lb), std::abs(ub), 1e-300});
    for (unsigned i = 0; i < n; ++i) {
        c.require(pts[i].size() == 1 && lab[i].size() == 1, "grid-dimension", "point ", i, " is not one-dimensional");
        const double e = static_cast<double>(static_cast<R>(lb) + w * i / static_cast<R>(n - 1));
        c.require(std::abs(pts[i][0] - e) <= tol, "grid-points", "point ", i, " is ", pts[i][0], ", expected ", e);
        const double l = f1d({pts[i][0]});
        c.require(std::abs(lab[i][0] - l) <= 1e-9 * std::max(1., std::abs(l)), "grid-labels", "label ", i, " is ", lab[i][0], ", the function gives ", l);
    }
}
#endif
int main(int argc, char **argv)
{
    if (!RefMT::self_test()) return 2;
    pbt::Property p;
    p.id = "G01";
    p.rule = "random sequences of up to four generated data sets into output vectors with a random past, every point and label compared with independently "
             "written formulas, grids and an MT19937 sample; the formulas at random points of their range; the one-dimensional generator on random functions, "
             "bounds and sizes; non-trivial: at least two data sets, a point away from poles, a grid of more than two points; counted distinct by choice sequence";
    p.subs = {{"history", 20000, 300000, history}};
#ifdef HAVE_FORMULAS
    p.subs.push_back({"formula", 200000, 3000000, formula});
#endif
#ifdef HAVE_1D
    p.subs.push_back({"grid", 60000, 1000000, grid});
#endif
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
#endif
