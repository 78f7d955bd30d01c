// W03: kernels on truncated Taylor numbers agree with their values and derivatives.
// FLAGS: -O1 -g1 -fsanitize=undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <dcgp/kernel_set.hpp>
#include <taylor.hpp>
#include <pbt.hpp>

using pbt::Case;
using pbt::Gen;
using ev::q;
using audi::gdual_d;
using audi::gdual_v;

static const std::set<std::string> UNARY = {"sin", "cos", "exp", "log", "sqrt", "psqrt", "gaussian"};

// a + b x + c y + d x y
struct Poly {
    std::vector<double> a; // one per point
    double b, c, d;
    template <typename T>
    T at(std::size_t p, const T &x, const T &y) const
    {
        return T(a[p]) + T(b) * x + T(c) * y + T(d) * x * y;
    }
    template <typename G>
    G on(const G &k, const G &x, const G &y) const
    {
        return k + b * x + c * y + d * x * y;
    }
};

// The coefficient of t^k of the polynomial along (dx, dy).
static std::vector<double> along(const gdual_d &g, unsigned order, double dx, double dy)
{
    std::vector<double> r(order + 1, 0.);
    gdual_d z(g);
    z.extend_symbol_set({"dx", "dy"});
    for (unsigned i = 0; i <= std::min(order, g.get_order()); ++i)
        for (unsigned j = 0; i + j <= std::min(order, g.get_order()); ++j)
            r[i + j] += z.find_cf(std::vector<unsigned>{i, j}) * std::pow(dx, i) * std::pow(dy, j);
    return r;
}
static std::vector<double> along(const gdual_v &g, unsigned order, double dx, double dy, std::size_t p)
{
    std::vector<double> r(order + 1, 0.);
    gdual_v z(g);
    z.extend_symbol_set({"dx", "dy"});
    for (unsigned i = 0; i <= std::min(order, g.get_order()); ++i)
        for (unsigned j = 0; i + j <= std::min(order, g.get_order()); ++j) {
            const auto cf = z.find_cf(std::vector<unsigned>{i, j});
            r[i + j] += cf[cf.size() == 1 ? 0 : p] * std::pow(dx, i) * std::pow(dy, j);
        }
    return r;
}

struct Problem {
    std::string name;
    unsigned order, points;
    std::vector<double> x0, y0;
    std::vector<Poly> in;
    double dx, dy;
};
static Problem make(Gen &g, Case &c, unsigned points)
{
    Problem p;
    const bool far = g.chance(1, 4); // where many kernels are flat
    do {
        p.name = g.pick(ev::catalogue());
        if (p.name == "pdiv") p.name = "div";
    } while (false);
    p.order = g.u(1, 4);
    p.points = points;
    for (unsigned i = 0; i < points; ++i) {
        p.x0.push_back(g.real(-2, 2));
        p.y0.push_back(g.real(-2, 2));
    }
    const unsigned n = g.small(1, 5);
    for (unsigned i = 0; i < n; ++i) {
        Poly q;
        for (unsigned k = 0; k < points; ++k) q.a.push_back(far && g.flip() ? g.real(-1, 1) * g.pick(std::vector<double>{10, 40, 400, 1000, 30000}) : g.real(-1, 1));
        const auto kind = g.raw(3);
        q.b = kind == 0 ? 1 : (kind == 1 ? 0 : g.real(-1, 1));
        q.c = kind == 0 ? 0 : (kind == 1 ? 0 : g.real(-1, 1));
        q.d = kind == 3 ? g.real(-1, 1) : 0;
        p.in.push_back(q);
    }
    p.dx = g.chance(1, 4) ? 1 : g.real(-1, 1);
    p.dy = g.chance(1, 4) ? 0 : g.real(-1, 1);
    c.note(p.name, ", ", n, " inputs, order ", p.order, ", ", points, " points, x=", p.x0, " y=", p.y0);
    for (auto &q : p.in) c.trace(" {a=", q.a, " b=", q.b, " c=", q.c, " d=", q.d, "}");
    return p;
}
// True if the reference is meaningful at this point.
static bool reference(const Problem &p, std::size_t pt, std::vector<double> &r)
{
    ev::margin() = 1e300;
    const auto t = ev::taylor([&](q s) {
        const q x = q(p.x0[pt]) + s * q(p.dx), y = q(p.y0[pt]) + s * q(p.dy);
        std::vector<q> v;
        for (auto &f : p.in) v.push_back(f.at(pt, x, y));
        return ev::ref_kernel(p.name, v);
    });
    r.clear();
    for (unsigned k = 0; k <= p.order; ++k) r.push_back(static_cast<double>(t[k]));
    if (ev::margin() < 0.05) return false;
    for (double z : r)
        if (!(std::abs(z) < 1e6)) return false;
    return true;
}
static void compare(Case &c, const Problem &p, std::size_t pt, const std::vector<double> &got, const std::vector<double> &want, const char *key)
{
    double scale = 1;
    for (double z : want) scale = std::max(scale, std::abs(z));
    for (unsigned k = 0; k <= p.order; ++k) {
        c.require(std::abs(got[k] - want[k]) <= 1e-7 * scale, std::string(key) + "-" + p.name, "coefficient ", k, " of ", p.name, " at point ", pt, " along (",
                  p.dx, ",", p.dy, ") is ", got[k], ", expected ", want[k], "; all: ", got, " and ", want);
    }
}

static void scalar(Gen &g, Case &c)
{
    const Problem p = make(g, c, 1);
    std::vector<double> want;
    if (!reference(p, 0, want)) {
        c.label("not smooth here");
        return;
    }
    c.label(p.name);
    c.nontrivial(p.order > 1 || p.in.size() > 1);
    dcgp::kernel_set<gdual_d> ks({p.name});
    const gdual_d x(p.x0[0], "x", p.order), y(p.y0[0], "y", p.order);
    std::vector<gdual_d> v;
    for (auto &f : p.in) v.push_back(f.on(gdual_d(f.a[0]), x, y));
    compare(c, p, 0, along(ks[0](v), p.order, p.dx, p.dy), want, "scalar");
}

static void vectorized(Gen &g, Case &c)
{
    const Problem p = make(g, c, g.small(1, 6));
    dcgp::kernel_set<gdual_v> ks({p.name});
    const gdual_v x(p.x0, "x", p.order), y(p.y0, "y", p.order);
    std::vector<gdual_v> v;
    for (auto &f : p.in) v.push_back(f.on(gdual_v(f.a), x, y));
    const gdual_v res = ks[0](v);
    unsigned ok = 0;
    for (unsigned pt = 0; pt < p.points; ++pt) {
        std::vector<double> want;
        if (!reference(p, pt, want)) continue;
        ++ok;
        compare(c, p, pt, along(res, p.order, p.dx, p.dy, pt), want, "vectorized");
    }
    c.label(ok ? p.name : "not smooth here");
    c.nontrivial(ok > 1);
}

// The protected division has no derivatives: it is refused.
static void refused(Gen &g, Case &c)
{
    const bool v = g.flip();
    c.note(v ? "gdual_v" : "gdual_d");
    c.nontrivial();
    bool threw = false;
    try {
        if (v) {
            dcgp::kernel_set<gdual_v> k({"pdiv"});
        } else {
            dcgp::kernel_set<gdual_d> k({"pdiv"});
        }
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    c.require(threw, "pdiv-gdual", "a protected division on Taylor numbers was accepted");
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "W03";
    p.rule = "random kernel, one to five inputs that are constants, variables or bilinear polynomials in two variables, orders one to four, one to six points; the "
             "coefficients along a random direction are compared with those of the documented formula, by interpolation in quadruple precision; non-trivial: at least "
             "one point well away from kinks and singularities, and an order above one or several inputs (several points, vectorized); counted distinct by choice sequence";
    p.subs = {{"scalar", 60000, 1200000, scalar}, {"vectorized", 40000, 800000, vectorized}, {"refused", 4, 8, refused}};
    p.assumptions = {"AuDi is replaced by a stand-in with the same interface: the truncated polynomial algebra itself is not dcgp's and is not under test"};
    p.case_cpu_s = 20;
    return pbt::run(argc, argv, p);
}
