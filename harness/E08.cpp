// E08: ephemeral constants and phenotype corrections.
// FLAGS: -O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <memory>

#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>

#include <expr.hpp>
#include <gd.hpp>
#include <lossref.hpp>
#include <parser.hpp>
#include <taylor.hpp>

using namespace cgp;
using audi::gdual_d;
using audi::gdual_v;
using ev::Ev;
using ev::q;

static const std::vector<std::string> &pool()
{
    static const auto v = [] {
        auto r = ev::catalogue();
        r.erase(std::find(r.begin(), r.end(), "pdiv"));
        return r;
    }();
    return v;
}
// y_i = a g(x)_i + b g(x')_i + k x_0, where x' is x with its first component halved.
struct Correction {
    double a = 1, b = 0, k = 0;
    template <typename T>
    std::vector<T> operator()(const std::vector<T> &x, std::function<std::vector<T>(const std::vector<T> &)> g) const
    {
        return apply<T>(x, g);
    }
    template <typename T, typename G>
    std::vector<T> apply(const std::vector<T> &x, const G &g) const
    {
        auto y = g(x);
        if (b != 0) {
            auto x2 = x;
            x2[0] = x2[0] * T(0.5);
            const auto y2 = g(x2);
            for (std::size_t i = 0; i < y.size(); ++i) y[i] = y[i] * T(a) + y2[i] * T(b) + x[0] * T(k);
        } else {
            for (auto &v : y) v = v * T(a) + x[0] * T(k);
        }
        return y;
    }
};
static Correction correction(Gen &g)
{
    Correction c;
    c.a = g.real(-2, 2);
    c.b = g.flip() ? g.real(-2, 2) : 0;
    c.k = g.real(-2, 2);
    return c;
}
template <typename T>
static typename dcgp::expression<T>::pc_fun_type wrap(const Correction &p)
{
    return typename dcgp::expression<T>::pc_fun_type(
        [p](const std::vector<T> &x, std::function<std::vector<T>(const std::vector<T> &)> g) { return p.apply<T>(x, g); });
}
// The documented value at a point, inputs alone given.
template <typename V>
static std::vector<V> reference(const Shape &s, const Chrom &x, const std::vector<V> &k, const Correction *p, const std::vector<V> &in)
{
    auto g = [&](const std::vector<V> &z) {
        auto all = z;
        all.insert(all.end(), k.begin(), k.end());
        return evaluate_documented<V>(s, x, all);
    };
    return p ? p->apply<V>(in, g) : g(in);
}
static std::vector<Ev> evs(const std::vector<double> &v)
{
    std::vector<Ev> r;
    for (double x : v) r.push_back(Ev(x));
    return r;
}

struct Model {
    Chrom x;
    std::vector<double> k;
    std::vector<std::string> names;
    std::unique_ptr<Correction> p;
    Model() = default;
    Model(const Model &o) : x(o.x), k(o.k), names(o.names), p(o.p ? new Correction(*o.p) : nullptr) {}
    Model &operator=(Model o)
    {
        x = o.x;
        k = o.k;
        names = o.names;
        p = std::move(o.p);
        return *this;
    }
};

static void history(Gen &g, Case &c)
{
    const Shape s = shape(g, pool(), Limits{3, 3, 3, 3, 4, 3, 5});
    using E = dcgp::expression<double>;
    std::vector<E> e;
    std::vector<Model> m;
    c.note(s);
    for (int i = 0; i < 2; ++i) {
        e.push_back(build<double>(s));
        e.back().set(chromosome(g, s));
        m.emplace_back();
        m.back().x = e.back().get();
        m.back().k = e.back().get_eph_val();
        for (unsigned j = 0; j < s.n_eph; ++j) m.back().names.push_back("c" + std::to_string(j + 1));
        c.require(e.back().get_eph_symb() == m.back().names && m.back().k.size() == s.n_eph, "initial", "constants are named ", e.back().get_eph_symb(), " with values ",
                  e.back().get_eph_val());
    }
    unsigned corrected = 0, constants_used = 0;
    std::vector<std::vector<double>> X, Y;
    const unsigned ops = g.u(1, 8);
    for (unsigned op = 0; op < ops; ++op) {
        const unsigned i = static_cast<unsigned>(g.raw(1)), o = 1 - i;
        switch (g.raw(9)) {
            case 0: {
                m[i].k.clear();
                for (unsigned j = 0; j < s.n_eph; ++j) m[i].k.push_back(g.real(-3, 3));
                c.trace(" ", i, ":values", m[i].k);
                e[i].set_eph_val(m[i].k);
                break;
            }
            case 1: {
                m[i].names.clear();
                static const std::vector<std::string> stems = {"k", "E", "const_", "sin_", "q"};
                const auto stem = g.pick(stems);
                for (unsigned j = 0; j < s.n_eph; ++j) m[i].names.push_back(stem + std::to_string(s.n_eph - j));
                c.trace(" ", i, ":names", m[i].names);
                e[i].set_eph_symb(m[i].names);
                break;
            }
            case 2:
            case 3:
                m[i].p.reset(new Correction(correction(g)));
                c.trace(" ", i, ":correct(", m[i].p->a, ",", m[i].p->b, ",", m[i].p->k, ")");
                e[i].set_phenotype_correction(wrap<double>(*m[i].p));
                break;
            case 4:
                c.trace(" ", i, ":plain");
                e[i].unset_phenotype_correction();
                m[i].p.reset();
                break;
            case 5:
                c.trace(" ", i, ":=", o);
                e[i] = e[o];
                m[i] = m[o];
                break;
            case 6: {
                c.trace(" ", i, ":move");
                E t(e[i]);
                E u(std::move(t));
                e[o] = std::move(u);
                m[o] = m[i];
                break;
            }
            case 7:
                c.trace(" ", i, ":set");
                e[i].set(chromosome(g, s));
                m[i].x = e[i].get();
                break;
            case 8:
                c.trace(" ", i, ":mutate");
                e[i].mutate_active(g.u(1, 4));
                m[i].x = e[i].get();
                break;
            default: {
                const unsigned wrong = g.flip() || !s.n_eph ? s.n_eph + g.u(1, 3) : static_cast<unsigned>(g.raw(s.n_eph - 1));
                const bool names = g.flip();
                c.trace(" ", i, ":", wrong, names ? " names" : " values");
                bool threw = false;
                try {
                    if (names)
                        e[i].set_eph_symb(std::vector<std::string>(wrong, "z"));
                    else
                        e[i].set_eph_val(std::vector<double>(wrong, 7.));
                } catch (const std::invalid_argument &) {
                    threw = true;
                }
                c.require(threw, names ? "wrong-names" : "wrong-values", wrong, names ? " names" : " values", " accepted for ", s.n_eph, " constants");
            }
        }
        // one of them, or both in either order
        const unsigned which = g.u(0, 3);
        for (unsigned turn = 0; turn < (which < 2 ? 2u : 1u); ++turn) {
            const unsigned z = which < 2 ? (turn ^ which) : which - 2;
            c.require(e[z].get_eph_val() == m[z].k, "values", "the constants of expression ", z, " are ", e[z].get_eph_val(), ", last set to ", m[z].k);
            c.require(e[z].get_eph_symb() == m[z].names, "names", "the names of the constants of expression ", z, " are ", e[z].get_eph_symb(), ", last set to ", m[z].names);
            if (X.empty() || g.flip()) { // otherwise the points last looked at
                X.clear();
                Y.clear();
                for (unsigned p = g.u(1, 3); p > 0; --p) {
                    X.emplace_back();
                    Y.emplace_back();
                    for (unsigned j = 0; j < s.n; ++j) X.back().push_back(g.real(-2, 2));
                    for (unsigned j = 0; j < s.m; ++j) Y.back().push_back(g.real(-2, 2));
                }
            }
            const unsigned points = static_cast<unsigned>(X.size());
            Ev loss(0.), ce(0.);
            for (unsigned p = 0; p < points; ++p) {
                const auto want = reference<Ev>(s, m[z].x, evs(m[z].k), m[z].p.get(), evs(X[p]));
                const auto got = e[z](X[p]);
                c.require(got.size() == s.m, "outputs", got.size(), " outputs");
                for (unsigned j = 0; j < s.m; ++j)
                    c.require(ev::matches(got[j], want[j]), m[z].p ? "corrected" : "evaluation", "expression ", z, m[z].p ? ", corrected," : "", " at ", X[p], " gives ", got,
                              " and output ", j, " should be ", want[j]);
                loss = loss + loss_ref(want, evs(Y[p]), false);
                ce = ce + loss_ref(want, evs(Y[p]), true);
                corrected += m[z].p && !want[0].bad;
            }
            const double l = e[z].loss(X, Y, "MSE", g.flip() ? points : 0), lc = e[z].loss(X, Y, "CE", g.flip() ? points : 0);
            loss = loss / Ev(static_cast<double>(points));
            ce = ce / Ev(static_cast<double>(points));
            c.require(ev::matches(l, loss), m[z].p ? "corrected-loss" : "loss", "the loss of expression ", z, " is ", l, ", expected ", loss);
            c.require(ev::matches(lc, ce), m[z].p ? "corrected-loss" : "loss", "the cross entropy of expression ", z, " is ", lc, ", expected ", ce);
            // the text is that of the plain program, with the names of the constants
            std::vector<std::string> names;
            std::map<std::string, Ev> vars;
            for (unsigned j = 0; j < s.n; ++j) {
                names.push_back("x" + std::to_string(j));
                vars[names.back()] = Ev(X[0][j]);
            }
            for (unsigned j = 0; j < s.n_eph; ++j) vars[m[z].names[j]] = Ev(m[z].k[j]);
            const auto t = e[z](names);
            const auto plain = reference<Ev>(s, m[z].x, evs(m[z].k), nullptr, evs(X[0]));
            for (unsigned j = 0; j < s.m; ++j) {
                if (t[j].size() > 20000 || plain[j].bad) continue;
                Ev w;
                try {
                    w = ev::eval_text(t[j], vars);
                } catch (const std::exception &x) {
                    c.fail("text", "the text of output ", j, " is ", t[j], ": ", x.what());
                }
                if (!w.bad)
                    c.require(std::abs(w.v - plain[j].v) <= 8 * (w.e + plain[j].e) + 1e-300L, "text", "the text of output ", j, " is ", t[j], " with value ", w, ", expected ", plain[j]);
            }
            for (unsigned k : reachable(s, m[z].x)) constants_used += k >= s.n && k < s.in();
        }
    }
    c.label(corrected ? "corrected" : "plain");
    if (constants_used) c.label("constants used");
    c.nontrivial((corrected || constants_used) && ops > 1);
}

template <typename T>
static void taylor(Gen &g, Case &c)
{
    const Shape s = shape(g, pool(), Limits{2, 2, 2, 2, 3, 3, 4});
    const unsigned lanes = std::is_same<T, gdual_v>::value ? g.u(1, 3) : 1, order = g.u(1, 2);
    auto e = build<T>(s);
    e.set(chromosome(g, s));
    std::vector<std::vector<double>> v;
    std::vector<double> dir;
    std::vector<T> in, k;
    for (unsigned i = 0; i < s.in(); ++i) {
        std::vector<double> z;
        for (unsigned l = 0; l < lanes; ++l) z.push_back(i >= s.n && l ? z[0] : g.real(-2, 2));
        dir.push_back(g.real(-1, 1));
        (i < s.n ? in : k).push_back(gd::var<T>(z, "s" + std::to_string(i), order));
        v.push_back(z);
    }
    const Correction p = correction(g);
    c.note(s, ": x=", e.get(), " at ", v, " along ", dir, " correction ", p.a, ",", p.b, ",", p.k);
    const bool first = g.flip();
    if (first) e.set_phenotype_correction(wrap<T>(p));
    if (s.n_eph) e.set_eph_val(k);
    if (!first) e.set_phenotype_correction(wrap<T>(p));
    const auto out = g.flip() ? e(in) : dcgp::expression<T>(e)(in);
    unsigned ok = 0;
    for (unsigned l = 0; l < lanes; ++l) {
        for (unsigned j = 0; j < s.m; ++j) {
            ev::margin() = 1e300;
            const auto t = ev::taylor([&](q h) {
                std::vector<q> a, b;
                for (unsigned i = 0; i < s.in(); ++i) (i < s.n ? a : b).push_back(q(v[i][l]) + h * q(dir[i]));
                return reference<q>(s, e.get(), b, &p, a)[j];
            }, 1e-5);
            double scale = 1;
            std::vector<double> at, half;
            for (auto &z : v) at.push_back(z[l]);
            half = at;
            half[0] *= 0.5;
            bool good = tame(s, e.get(), at) && tame(s, e.get(), half) && ev::margin() >= 0.02 && std::abs(static_cast<double>(t[4])) < 1e6;
            for (unsigned i = 0; i <= order; ++i) {
                scale = std::max(scale, std::abs(static_cast<double>(t[i])));
                good = good && std::abs(static_cast<double>(t[i])) < 1e4;
            }
            if (!good) continue;
            ++ok;
            const auto got = gd::along(out[j], order, dir, l);
            for (unsigned i = 0; i <= order; ++i)
                c.require(std::abs(got[i] - static_cast<double>(t[i])) <= 1e-6 * scale, "taylor", "coefficient ", i, " of output ", j, " is ", got[i], ", expected ",
                          static_cast<double>(t[i]));
        }
    }
    c.label(ok ? "smooth" : "not smooth here");
    c.nontrivial(ok && e.get_active_nodes().back() >= s.in());
}

// A correction on a weighted expression (weights one: the plain program), and on a network.
template <typename E>
static void derived(Gen &g, Case &c)
{
    constexpr bool net = std::is_same<E, dcgp::expression_ann>::value;
    const Shape s = shape(g, net ? ev::activations() : pool(), Limits{3, 0, 3, 3, 4, 3, 5});
    dcgp::kernel_set<double> ks(s.kernels);
    E e(s.n, s.m, s.r, s.c, s.l, s.arity, ks(), s.seed);
    e.set(chromosome(g, s));
    const Correction p = correction(g);
    c.note(s, ": x=", e.get(), " correction ", p.a, ",", p.b, ",", p.k);
    e.set_phenotype_correction(wrap<double>(p));
    std::vector<double> x, y;
    for (unsigned j = 0; j < s.n; ++j) x.push_back(g.real(-2, 2));
    for (unsigned j = 0; j < s.m; ++j) y.push_back(g.real(-2, 2));
    const auto want = reference<Ev>(s, e.get(), {}, &p, evs(x)), plain = reference<Ev>(s, e.get(), {}, nullptr, evs(x));
    const auto got = e(x);
    for (unsigned j = 0; j < s.m; ++j)
        c.require(ev::matches(got[j], want[j], 16), ev::matches(got[j], plain[j], 16) ? "ignored" : "corrected", "at ", x, " output ", j, " is ", got[j], ", with the correction it is ", want[j], ", without ", plain[j]);
    const Ev l = loss_ref(want, evs(y), false);
    const double gl = e.loss(x, y, dcgp::expression<double>::loss_type::MSE);
    c.require(ev::matches(gl, l, 16), "loss", "the loss is ", gl, ", expected ", l);
    e.unset_phenotype_correction();
    const auto back = e(x);
    for (unsigned j = 0; j < s.m; ++j) c.require(ev::matches(back[j], plain[j], 16), "unset", "without correction output ", j, " is ", back[j], ", expected ", plain[j]);
    c.nontrivial(!want[0].bad && std::abs(want[0].v - plain[0].v) > 1e-6L);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "E08";
    p.rule = "histories of setting constants, names and corrections (rightly and wrongly), removing, copying, moving, setting and mutating on two expressions, one or both looked at "
             "(values, text, losses at every parallelism) after every step, often at the same points, against a model; corrected Taylor evaluation against derivatives in quadruple precision; non-trivial: "
             "a correction applied or a constant is used, over several steps; counted distinct by choice sequence";
    p.subs = {{"history", 15000, 300000, history},
              {"taylor", 8000, 150000, taylor<gdual_d>},
              {"taylor-vectorized", 8000, 150000, taylor<gdual_v>},
              {"weighted", 8000, 100000, derived<dcgp::expression_weighted<double>>},
              {"network", 2000, 20000, derived<dcgp::expression_ann>}};
    p.assumptions = {"AuDi is replaced by a stand-in with the same interface"};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
