// E07: the loss of an expression.
// FLAGS: -O1 -g1 -fsanitize=undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <expr.hpp>
#include <gd.hpp>
#include <lossref.hpp>
#include <taylor.hpp>

using namespace cgp;
using audi::gdual_d;
using audi::gdual_v;
using ev::Ev;
using ev::q;
using Data = std::vector<std::vector<double>>;

static const std::vector<std::string> &pool()
{
    static const auto v = [] {
        auto r = ev::catalogue();
        r.erase(std::find(r.begin(), r.end(), "pdiv"));
        return r;
    }();
    return v;
}
static Data data(Gen &g, unsigned points, unsigned dim, double span, bool classes)
{
    Data d;
    for (unsigned i = 0; i < points; ++i) {
        d.emplace_back();
        const unsigned hot = static_cast<unsigned>(g.raw(dim - 1));
        for (unsigned j = 0; j < dim; ++j) d.back().push_back(classes ? (j == hot ? 1. : 0.) : g.real(-span, span));
    }
    return d;
}
static std::vector<unsigned> divisors(unsigned n)
{
    std::vector<unsigned> d;
    for (unsigned i = 1; i <= n; ++i)
        if (n % i == 0) d.push_back(i);
    return d;
}

static void value(Gen &g, Case &c)
{
    const Shape s = shape(g, g.flip() ? pool() : std::vector<std::string>{"sum", "diff", "mul", "exp"}, Limits{3, 2, 4, 3, 4, 3, 4});
    auto e = build<double>(s);
    e.set(chromosome(g, s));
    bool ce = g.flip();
    const unsigned points = g.small(1, 24);
    const double span = g.pick(std::vector<double>{2, 1, 30, 1000});
    const Data X = data(g, points, s.n, span, false), Y = data(g, points, s.m, 2, g.flip());
    c.note(s, ": points ", X, " labels ", Y);
    unsigned whole = 0;
    for (unsigned rounds = g.u(1, 3); rounds > 0; --rounds) {
        c.trace(" x=", e.get(), " constants ", e.get_eph_val(), ce ? " CE" : " MSE");
        const auto before = snapshot(e);
        Ev want(0.);
        std::vector<Ev> each;
        for (unsigned i = 0; i < points; ++i) {
            std::vector<Ev> in, y;
            for (double v : X[i]) in.push_back(Ev(v));
            for (double v : e.get_eph_val()) in.push_back(Ev(v));
            for (double v : Y[i]) y.push_back(Ev(v));
            each.push_back(loss_ref(evaluate_documented<Ev>(s, e.get(), in), y, ce));
            want = want + each.back();
        }
        want = want / Ev(static_cast<double>(points));
        const auto type = ce ? dcgp::expression<double>::loss_type::CE : dcgp::expression<double>::loss_type::MSE;
        const char *name = ce ? "CE" : "MSE";
        // each point alone
        for (unsigned i = 0; i < points; ++i) {
            const double got = e.loss(X[i], Y[i], type);
            c.require(ev::matches(got, each[i]), ce ? "point-ce" : "point-mse", name, " at point ", i, " is ", got, ", expected ", each[i], "; outputs ", e(X[i]));
        }
        const double got = e.loss(X, Y, name);
        c.require(ev::matches(got, want), ce ? "batch-ce" : "batch-mse", name, " is ", got, ", expected ", want);
        const auto dv = divisors(points);
        for (int k = 0; k < 2; ++k) {
            const unsigned p = g.pick(dv);
            const double par = e.loss(X, Y, name, p);
            if (want.bad) continue;
            c.require(ev::matches(par, want), ce ? "parallel-ce" : "parallel-mse", name, " with parallelism ", p, " is ", par, ", expected ", want);
            c.label(p > 1 ? "parallel" : "one batch");
        }
        c.require(snapshot(e) == before, "changed", "computing the loss changed the expression");
        c.label(want.bad ? "undefined" : name);
        whole += !want.bad && points > 1 && e.get_active_nodes().back() >= s.in();
        // the same data once more, something else having changed
        switch (g.raw(3)) {
            case 0:
                ce = !ce;
                break;
            case 1: {
                std::vector<double> k;
                for (unsigned i = 0; i < s.n_eph; ++i) k.push_back(g.real(-3, 3));
                e.set_eph_val(k);
                break;
            }
            case 2:
                e.set(chromosome(g, s));
                break;
            default:
                e.mutate_active(g.u(1, 3));
        }
    }
    c.nontrivial(whole);
}

template <typename T>
static void derivative(Gen &g, Case &c)
{
    const Shape s = shape(g, pool(), Limits{3, 2, 3, 3, 3, 3, 5});
    const bool vec = std::is_same<T, gdual_v>::value;
    const unsigned lanes = vec ? g.u(1, 3) : 1, order = g.u(1, 2), points = g.small(1, 4);
    auto e = build<T>(s);
    e.set(chromosome(g, s));
    const bool ce = g.flip();
    const char *name = ce ? "CE" : "MSE";
    c.note(s, ": x=", e.get(), " order ", order, " ", name);
    std::vector<double> dir;
    // the constants vary
    Data k;
    std::vector<T> kt;
    for (unsigned i = 0; i < s.n_eph; ++i) {
        const double v = g.real(-2, 2);
        if (vec && g.chance(1, 3)) { // the same in all lanes, said once
            kt.push_back(gd::con<T>({v}));
            k.push_back({v, 0.});
            continue;
        }
        std::vector<double> z(lanes, v);
        kt.push_back(gd::var<T>(z, "s" + std::to_string(dir.size()), order));
        dir.push_back(g.chance(1, 3) ? 1. : g.real(-1, 1));
        k.push_back({v, dir.back()});
    }
    if (s.n_eph) e.set_eph_val(kt);
    // and the inputs of the first point
    std::vector<std::vector<T>> X, Y;
    std::vector<std::vector<std::vector<double>>> Xd, Yd; // point, coordinate, lanes then direction
    for (unsigned i = 0; i < points; ++i) {
        X.emplace_back();
        Y.emplace_back();
        Xd.emplace_back();
        Yd.emplace_back();
        for (unsigned j = 0; j < s.n; ++j) {
            std::vector<double> z;
            if (vec && g.chance(1, 5)) {
                z.assign(lanes, g.real(-2, 2));
                X.back().push_back(gd::con<T>({z[0]}));
                z.push_back(0.);
                Xd.back().push_back(z);
                continue;
            }
            for (unsigned l = 0; l < lanes; ++l) z.push_back(g.real(-2, 2));
            if (i == 0 && g.flip()) {
                X.back().push_back(gd::var<T>(z, "s" + std::to_string(dir.size()), order));
                dir.push_back(g.real(-1, 1));
                z.push_back(dir.back());
            } else {
                X.back().push_back(gd::con<T>(z));
                z.push_back(0.);
            }
            Xd.back().push_back(z);
        }
        for (unsigned j = 0; j < s.m; ++j) {
            std::vector<double> z;
            for (unsigned l = 0; l < lanes; ++l) z.push_back(g.flip() ? 1. : g.real(-1, 2));
            Y.back().push_back(gd::con<T>(z));
            Yd.back().push_back(z);
        }
        c.trace(" ", Xd.back(), "->", Yd.back());
    }
    const auto d = divisors(points);
    const unsigned par = g.chance(1, 3) ? g.pick(d) : 0;
    const T got = e.loss(X, Y, name, par);
    unsigned ok = 0;
    for (unsigned l = 0; l < lanes; ++l) {
        ev::margin() = 1e300;
        const auto t = ev::taylor([&](q h) {
            q sum = 0;
            for (unsigned i = 0; i < points; ++i) {
                std::vector<q> in, y;
                for (auto &z : Xd[i]) in.push_back(q(z[l]) + h * q(z.back()));
                for (auto &z : k) in.push_back(q(z[0]) + h * q(z[1]));
                for (auto &z : Yd[i]) y.push_back(q(z[l]));
                sum += loss_ref(evaluate_documented<q>(s, e.get(), in), y, ce);
            }
            return sum / q(static_cast<double>(points));
        }, 1e-5);
        bool good = ev::margin() >= 0.02;
        for (unsigned i = 0; i < points; ++i) { // no overflow on the way
            std::vector<Ev> in, y;
            for (auto &z : Xd[i]) in.push_back(Ev(z[l]));
            for (auto &z : k) in.push_back(Ev(z[0]));
            for (auto &z : Yd[i]) y.push_back(Ev(z[l]));
            in.resize(s.in(), Ev(0.));
            const auto o = evaluate_documented<Ev>(s, e.get(), in);
            std::vector<double> at;
            for (auto &z : in) at.push_back(static_cast<double>(z.v));
            good = good && tame(s, e.get(), at);
            good = good && !loss_ref(o, y, ce).bad;
            for (auto &z : o) good = good && !(ce && !(std::abs(z.v) < 1500));
        }
        double scale = 1;
        std::vector<double> want;
        for (unsigned i = 0; i <= order; ++i) {
            want.push_back(static_cast<double>(t[i]));
            scale = std::max(scale, std::abs(want.back()));
            good = good && std::abs(want.back()) < 1e4;
        }
        if (!good || !(std::abs(static_cast<double>(t[4])) < 1e6)) continue;
        ++ok;
        const auto co = gd::along(got, order, dir, l);
        for (unsigned i = 0; i <= order; ++i)
            c.require(std::abs(co[i] - want[i]) <= 1e-6 * scale, ce ? "derivative-ce" : "derivative-mse", "coefficient ", i, " of the ", name, " with parallelism ", par, " is ", co[i],
                      ", expected ", want[i], "; all: ", co, " and ", want);
    }
    c.label(ok ? name : "not smooth here");
    c.nontrivial(ok && !dir.empty() && e.get_active_nodes().back() >= s.in());
}

static void rejects(Gen &g, Case &c)
{
    const Shape s = shape(g, pool(), Limits{3, 2, 3, 2, 3, 3, 4});
    const auto e = build<double>(s);
    const unsigned points = g.small(1, 12);
    Data X = data(g, points, s.n, 2, false), Y = data(g, points, s.m, 2, false);
    std::string name = g.flip() ? "CE" : "MSE";
    unsigned par = 0;
    const auto before = snapshot(e);
    const unsigned at = static_cast<unsigned>(g.raw(points - 1));
    bool single = false;
    const char *what = "";
    switch (g.raw(7)) {
        case 0:
            what = "no data";
            X.clear();
            Y.clear();
            break;
        case 1:
            what = "fewer labels";
            Y.resize(at);
            break;
        case 2:
            what = "more labels";
            Y.resize(points + g.u(1, 3), Y[0]);
            break;
        case 3: {
            what = "unknown loss";
            static const std::vector<std::string> bad = {"", "mse", "RMSE", "MSE ", "ce", "CEE", "M", "loss", "MAE"};
            name = g.pick(bad);
            break;
        }
        case 4: {
            what = "impossible split";
            par = points + g.u(1, 5);
            for (unsigned t = 0; t < 4 && points > 2; ++t) {
                const unsigned k = g.u(2, points);
                if (points % k) par = k;
            }
            if (g.chance(1, 6)) par = 0xffffffffu;
            break;
        }
        case 5:
            what = "bad point";
            single = g.flip();
            if (g.flip())
                X[at].resize(s.n + g.u(1, 4), 1.);
            else
                X[at].resize(g.u(0, s.n - 1));
            break;
        case 6:
            what = "bad label";
            single = g.flip();
            if (g.flip())
                Y[at].resize(s.m + g.u(1, 4), 1.);
            else
                Y[at].resize(g.u(0, s.m - 1));
            break;
        default:
            what = "bad point, in parallel";
            par = g.pick(divisors(points));
            X[at].push_back(1.);
    }
    c.note(s, ": ", what, " ", points, " points, ", name, " parallel ", par, single ? " one point" : "");
    bool threw = false;
    double got = 0;
    try {
        got = single ? e.loss(X[at], Y[at], name == "CE" ? dcgp::expression<double>::loss_type::CE : dcgp::expression<double>::loss_type::MSE) : e.loss(X, Y, name, par);
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    c.require(threw, std::string("accepted: ") + what, "a loss with ", what, " is ", got);
    c.require(snapshot(e) == before, "changed", "a rejected loss changed the expression");
    c.label(what);
    c.nontrivial();
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "E07";
    p.rule = "random shapes, chromosomes and data sets (one-hot or real labels, small and large values); the mean squared error and the cross entropy of each point and of all, at "
             "random degrees of parallelism, against the documented formula within a running error bound, then again on the same data with another loss, program or constants, and for Taylor numbers against derivatives in quadruple precision; "
             "calls to be rejected; non-trivial: the reference is defined, several points, some active node (values), something varies (derivatives), or a call to reject; "
             "counted distinct by choice sequence";
    p.subs = {{"value", 60000, 1500000, value},
              {"derivative", 12000, 200000, derivative<gdual_d>},
              {"derivative-vectorized", 12000, 200000, derivative<gdual_v>},
              {"rejects", 30000, 400000, rejects}};
    p.assumptions = {"AuDi is replaced by a stand-in with the same interface"};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
