// G02: measured data sets are the published ones.
// PROBES: HAVE_GAUSS2
#include <dcgp/gym.hpp>
#include <vector>
using VV = std::vector<std::vector<double>>;
#ifdef HAVE_GAUSS2
// A published data set the tree has the table of, without a generator.
inline void gauss2(VV &p, VV &l)
{
    using namespace dcgp;
    using namespace dcgp::gym;
    p = gauss2_points;
    l = gauss2_labels;
}
#endif
#ifndef PROBE_ONLY
#include <luca1.hpp>
#include <pbt.hpp>
#include <dcgp/rng.hpp>

using pbt::Case;
using pbt::Gen;
using R = long double;
using Vr = std::vector<R>;

struct Set {
    const char *name;
    void (*gen)(VV &, VV &);
    unsigned n;
    std::vector<double> b; // certified parameters
    double rss;            // certified residual sum of squares
    double tol;            // relative; of the certificate and of the arithmetic
    R (*model)(const Vr &b, R x);
};
static R gauss(const Vr &b, R x)
{
    return b[0] * expl(-b[1] * x) + b[2] * expl(-(x - b[3]) * (x - b[3]) / (b[4] * b[4])) + b[5] * expl(-(x - b[6]) * (x - b[6]) / (b[7] * b[7]));
}
static R chwirut(const Vr &b, R x)
{
    return expl(-b[0] * x) / (b[1] + b[2] * x);
}
// https://www.itl.nist.gov/div898/strd/nls/nls_main.shtml
static const std::vector<Set> &sets()
{
    namespace g = dcgp::gym;
    static const std::vector<Set> v = {
        {"chwirut1", g::generate_chwirut1, 214, {1.9027818370E-01, 6.1314004477E-03, 1.0530908399E-02}, 2.3844771393E+03, 1e-9, chwirut},
        {"chwirut2", g::generate_chwirut2, 54, {1.6657666537E-01, 5.1653291286E-03, 1.2150007096E-02}, 5.1304802941E+02, 1e-9, chwirut},
        {"daniel_wood", g::generate_daniel_wood, 6, {7.6886226176E-01, 3.8604055871E+00}, 4.3173084083E-03, 1e-8, [](const Vr &b, R x) { return b[0] * powl(x, b[1]); }},
        {"gauss1", g::generate_gauss1, 250,
         {9.8778210871E+01, 1.0497276517E-02, 1.0048990633E+02, 6.7481111276E+01, 2.3129773360E+01, 7.1994503004E+01, 1.7899805021E+02, 1.8389389025E+01},
         1.3158222432E+03, 1e-9, gauss},
#ifdef HAVE_GAUSS2
        {"gauss2", gauss2, 250,
         {9.9018328406E+01, 1.0994945399E-02, 1.0188022528E+02, 1.0703095519E+02, 2.3578584029E+01, 7.2045589471E+01, 1.5327010194E+02, 1.9525972636E+01},
         1.2475282092E+03, 1e-9, gauss},
#endif
        {"kirby2", g::generate_kirby2, 151, {1.6745063063E+00, -1.3927397867E-01, 2.5961181191E-03, -1.7241811870E-03, 2.1664802578E-05}, 3.9050739624E+00, 1e-8,
         [](const Vr &b, R x) { return (b[0] + b[1] * x + b[2] * x * x) / (1 + b[3] * x + b[4] * x * x); }},
        {"lanczos2", g::generate_lanczos2, 24,
         {9.6251029939E-02, 1.0057332849E+00, 8.6424689056E-01, 3.0078283915E+00, 1.5529016879E+00, 5.0028798100E+00}, 2.2299428125E-11, 1e-6,
         [](const Vr &b, R x) { return b[0] * expl(-b[1] * x) + b[2] * expl(-b[3] * x) + b[4] * expl(-b[5] * x); }},
        {"misra1b", g::generate_misra1b, 14, {3.3799746163E+02, 3.9039091287E-04}, 7.5464681533E-02, 1e-8,
         [](const Vr &b, R x) { return b[0] * (1 - 1 / ((1 + b[1] * x / 2) * (1 + b[1] * x / 2))); }},
    };
    return v;
}
static void verify(Case &c, const Set &s, const VV &p, const VV &l)
{
    const std::string n = s.name;
    c.require(p.size() == s.n && l.size() == s.n, n + "-count", n, ": ", p.size(), " points and ", l.size(), " labels, published are ", s.n);
    Vr b(s.b.begin(), s.b.end());
    R rss = 0;
    for (unsigned i = 0; i < s.n; ++i) {
        c.require(p[i].size() == 1 && l[i].size() == 1, n + "-dimension", n, ": observation ", i, " is not one value each");
        const R r = l[i][0] - s.model(b, p[i][0]);
        rss += r * r;
    }
    const double rel = std::abs(static_cast<double>(rss / s.rss - 1));
    c.require(rel <= s.tol, n + "-residual", n, ": residual sum of squares at the certified parameters is ", static_cast<double>(rss), ", certified is ", s.rss);
    // stationary: moving along any parameter changes the residual to second order only
    for (std::size_t j = 0; j < b.size(); ++j) {
        R up = 0, down = 0, g2 = 0;
        const R h = 1e-6L * b[j];
        Vr bu = b, bd = b;
        bu[j] += h;
        bd[j] -= h;
        for (unsigned i = 0; i < s.n; ++i) {
            const R fu = s.model(bu, p[i][0]), fd = s.model(bd, p[i][0]), y = l[i][0];
            up += (y - fu) * (y - fu);
            down += (y - fd) * (y - fd);
            const R d = (fu - fd) / (2 * h);
            g2 += d * d;
        }
        // cosine of the angle between the residuals and the j-th tangent
        const R cosine = (up - down) / (4 * h) / sqrtl(g2 * rss);
        c.require(std::abs(static_cast<double>(cosine)) <= 1e-4, n + "-stationary", n, ": the certified parameters are not a stationary point along parameter ", j,
                  " (cosine ", static_cast<double>(cosine), ")");
    }
}
static void luca(Case &c, const VV &p, const VV &l)
{
    const std::size_t n = sizeof(LUCA1) / sizeof(LUCA1[0]);
    c.require(p.size() == n && l.size() == n, "luca1-count", "luca1: ", p.size(), " points and ", l.size(), " labels, expected ", n);
    for (std::size_t i = 0; i < n; ++i) {
        c.require(p[i].size() == 1 && l[i].size() == 1, "luca1-dimension", "luca1: observation ", i, " is not one value each");
        c.require(p[i][0] == LUCA1[i][0] && l[i][0] == LUCA1[i][1], "luca1-values", "luca1: observation ", i, " is (", p[i][0], ",", l[i][0], "), expected (", LUCA1[i][0], ",",
                  LUCA1[i][1], ")");
    }
}
static VV junk(Gen &g)
{
    VV v;
    switch (g.u(0, 3)) {
        case 0:
            break;
        case 1:
            v.assign(g.u(0, 40), std::vector<double>(g.u(0, 4), 7.));
            break;
        case 2:
            v.assign(900, std::vector<double>(1, -1.));
            break;
        default:
            v.reserve(g.u(0, 1000));
    }
    return v;
}
static void history(Gen &g, Case &c)
{
    const auto &S = sets();
    const unsigned len = g.u(1, 5);
    VV pts = junk(g), lab = junk(g);
    for (unsigned k = 0; k < len; ++k) {
        switch (g.u(0, 5)) {
            case 1:
                pts = junk(g);
                lab = junk(g);
                break;
            case 2:
                dcgp::random_device::set_seed(g.seed());
                break;
            case 3: // the caller changes what it got
                for (auto &x : pts) {
                    if (!x.empty()) x[0] = -x[0] * 3.;
                }
                if (!lab.empty()) lab.back() = {1, 2, 3};
                break;
            case 4: // and gives it away
                pts.clear();
                lab = VV();
                break;
            case 5: { // a synthetic one in between
                dcgp::gym::generate_P1(pts, lab);
                break;
            }
            default:
                break;
        }
        const auto j = g.raw(S.size());
        if (j == S.size()) {
            c.note("luca1");
            dcgp::gym::generate_luca1(pts, lab);
            luca(c, pts, lab);
        } else {
            c.note(S[j].name);
            S[j].gen(pts, lab);
            verify(c, S[j], pts, lab);
        }
    }
    c.nontrivial(len > 1);
}
int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "G02";
    p.rule = "random sequences of up to five data sets into output vectors with a random past, the caller changing what it got in between; each set must give the "
             "certified residual sum of squares at the certified parameters of its NIST model, and those must be a stationary point (luca1: the pinned values); "
             "non-trivial: at least two data sets; counted distinct by choice sequence";
    p.subs = {{"history", 40000, 600000, history}};
    p.assumptions = {"the certified values of NIST, quoted in the harness"};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
#endif
