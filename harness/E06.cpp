// E06: Taylor evaluation of an expression gives its derivatives.
// FLAGS: -O1 -g1 -fsanitize=undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <expr.hpp>
#include <taylor.hpp>

using namespace cgp;
using audi::gdual_d;
using audi::gdual_v;
using ev::q;

static double cf(const double &x, std::size_t)
{
    return x;
}
static double cf(const audi::vectorized<double> &x, std::size_t p)
{
    return x.size() == 1 ? x[0] : x[p];
}
// Coefficients, by degree, along the direction d of the variables s0, s1, ...
template <typename G>
static std::vector<double> along(const G &g0, unsigned order, const std::vector<double> &d, std::size_t pt)
{
    G g(g0);
    std::vector<std::string> sym;
    for (std::size_t i = 0; i < d.size(); ++i) sym.push_back("ds" + std::to_string(i));
    std::vector<double> r(order + 1, 0.);
    g.extend_symbol_set(sym);
    std::vector<unsigned> k(d.size(), 0);
    const unsigned top = std::min(order, g.get_order());
    std::function<void(std::size_t, unsigned, double)> rec = [&](std::size_t i, unsigned used, double w) {
        if (i == d.size()) {
            r[used] += w * cf(g.find_cf(k), pt);
            return;
        }
        double p = 1;
        for (unsigned a = 0; used + a <= top; ++a) {
            k[i] = a;
            rec(i + 1, used + a, w * p);
            p *= d[i];
        }
        k[i] = 0;
    };
    rec(0, 0, 1.);
    return r;
}
static gdual_d var(const std::vector<double> &v, const std::string &name, unsigned order, gdual_d *)
{
    return gdual_d(v[0], name, order);
}
static gdual_v var(const std::vector<double> &v, const std::string &name, unsigned order, gdual_v *)
{
    return gdual_v(v, name, order);
}
static gdual_d con(const std::vector<double> &v, gdual_d *)
{
    return gdual_d(v[0]);
}
static gdual_v con(const std::vector<double> &v, gdual_v *)
{
    return gdual_v(v);
}

template <typename T>
static void derivatives(Gen &g, Case &c)
{
    static const std::vector<std::string> pool = [] {
        auto v = ev::catalogue();
        v.erase(std::find(v.begin(), v.end(), "pdiv"));
        return v;
    }();
    const Shape s = shape(g, pool, Limits{3, 2, 2, 3, 4, 3, 5});
    const bool vec = std::is_same<T, gdual_v>::value;
    const unsigned points = vec ? g.u(1, 4) : 1, order = g.u(1, 3);
    auto e = build<T>(s);
    if (g.flip()) e.set(chromosome(g, s));
    c.note(s, ": order ", order);
    // values of inputs and constants, and which of them vary
    std::vector<std::vector<double>> v;
    std::vector<double> dir;
    std::vector<T> in;
    for (unsigned i = 0; i < s.in(); ++i) {
        std::vector<double> z;
        const bool eph = i >= s.n;
        for (unsigned k = 0; k < points; ++k) z.push_back(eph && k ? z[0] : g.real(-2, 2));
        const bool varies = g.chance(2, 3);
        T t = varies ? var(z, "s" + std::to_string(dir.size()), order, static_cast<T *>(nullptr)) : con(z, static_cast<T *>(nullptr));
        c.trace(varies ? " var " : " const ", z);
        v.push_back(z);
        in.push_back(t);
        if (varies) {
            dir.push_back(g.chance(1, 4) ? 1. : g.real(-1, 1));
            v.back().push_back(dir.back()); // the direction, after the points
        } else {
            v.back().push_back(0.);
        }
    }
    if (s.n_eph) {
        e.set_eph_val(std::vector<T>(in.begin() + s.n, in.end()));
    }
    unsigned whole = 0;
    for (unsigned rounds = g.chance(1, 3) ? 2 : 1; rounds > 0; --rounds) { // the same point for another program
        const Chrom x = e.get();
        c.trace(" x=", x);
        const auto out = e(std::vector<T>(in.begin(), in.begin() + s.n));
        unsigned ok = 0;
        for (unsigned pt = 0; pt < points; ++pt) {
            // reference
            for (unsigned j = 0; j < s.m; ++j) {
                ev::margin() = 1e300;
                const auto t = ev::taylor([&](q h) {
                    std::vector<q> a;
                    for (auto &z : v) a.push_back(q(z[pt]) + h * q(z.back()));
                    return evaluate_documented<q>(s, x, a)[j];
                }, 1e-5);
                std::vector<double> want;
                std::vector<double> at;
                for (auto &z : v) at.push_back(z[pt]);
                bool good = ev::margin() >= 0.02 && tame(s, x, at);
                for (unsigned k = 0; k <= order; ++k) {
                    want.push_back(static_cast<double>(t[k]));
                    good = good && std::abs(want.back()) < 1e4;
                }
                // large values inside (as an exponential of an exponential) are not for double differences
                if (!good) continue;
                if (std::abs(static_cast<double>(t[4])) > 1e6) continue;
                ++ok;
                const auto got = along(out[j], order, dir, pt);
                double scale = 1;
                for (double z : want) scale = std::max(scale, std::abs(z));
                for (unsigned k = 0; k <= order; ++k)
                    c.require(std::abs(got[k] - want[k]) <= 1e-6 * scale, "coefficient", "coefficient ", k, " of output ", j, " at point ", pt, " is ", got[k], ", expected ",
                              want[k], "; all: ", got, " and ", want);
            }
        }
        c.label(ok ? "smooth" : "not smooth here");
        whole += ok && e.get_active_nodes().back() >= s.in() && !dir.empty();
        if (g.flip())
            e.set(chromosome(g, s));
        else
            e.mutate_active(g.u(1, 3));
    }
    c.nontrivial(whole);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "E06";
    p.rule = "random shapes and chromosomes over all kernels; inputs and constants that vary or not, orders one to three, one to four points; the coefficients along a random "
             "direction against those of the documented graph by interpolation in quadruple precision; non-trivial: a smooth point with moderate coefficients, an active "
             "node, and something that varies; counted distinct by choice sequence";
    p.subs = {{"scalar", 25000, 500000, derivatives<gdual_d>}, {"vectorized", 15000, 250000, derivatives<gdual_v>}};
    p.assumptions = {"AuDi is replaced by a stand-in with the same interface"};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
