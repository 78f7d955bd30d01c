// C01: a weighted expression evaluates its graph with every connection multiplied by its weight.
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <anyexpr.hpp>
#include <lossref.hpp>
#include <taylor.hpp>

using namespace cgp;
using audi::gdual_d;
using audi::gdual_v;
using ev::Ev;
using ev::q;
using Weights = std::map<std::pair<unsigned, unsigned>, double>;

template <typename V>
static std::vector<V> weighted(const Shape &s, const Chrom &x, const std::vector<V> &in, const std::function<V(unsigned, unsigned)> &w)
{
    return evaluate<V>(s, x, in, [&](unsigned f, unsigned node, const std::vector<V> &a) {
        auto b = a;
        for (unsigned j = 0; j < b.size(); ++j) b[j] = b[j] * w(node, j);
        return ev::ref_kernel(s.kernels[f], b);
    });
}
// Weights in the order of the vector of all weights: node by node, input by input.
static std::vector<std::pair<unsigned, unsigned>> order(const Shape &s)
{
    std::vector<std::pair<unsigned, unsigned>> o;
    for (unsigned k = s.in(); k < s.nodes(); ++k)
        for (unsigned j = 0; j < s.node_arity(k); ++j) o.push_back({k, j});
    return o;
}

static void history(Gen &g, Case &c)
{
    using E = dcgp::expression_weighted<double>;
    const Shape s = shape(g, ev::catalogue(), Limits{3, 0, 3, 3, 4, 4, 5});
    c.note(s);
    E e = make<E>(s);
    const auto o = order(s);
    Weights w;
    for (auto &p : o) w[p] = 1;
    Chrom x = e.get();
    check_structure(c, e, s, nullptr, "when built");
    const unsigned ops = g.u(1, 9);
    unsigned set = 0, defined = 0;
    std::vector<double> in, y;
    std::vector<Ev> ei, ey;
    for (unsigned op = 0; op <= ops; ++op) {
        c.require(e.get_weights().size() == o.size(), "size", "there are ", e.get_weights().size(), " weights, expected ", o.size());
        for (std::size_t i = 0; i < o.size(); ++i) {
            c.require(e.get_weights()[i] == w[o[i]], "weights", "weight ", i, " (node ", o[i].first, " input ", o[i].second, ") is ", e.get_weights()[i], ", expected ", w[o[i]]);
            c.require(e.get_weight(o[i].first, o[i].second) == w[o[i]], "get-weight", "the weight of node ", o[i].first, " input ", o[i].second, " is ",
                      e.get_weight(o[i].first, o[i].second), ", expected ", w[o[i]]);
        }
        c.require(e.get() == x, "chromosome", "the chromosome is ", e.get(), ", expected ", x);
        check_active(c, e, s, "now");
        const bool fresh = op == 0 || g.flip(); // otherwise the same point once more
        if (fresh) {
            in.clear(), y.clear(), ei.clear(), ey.clear();
        }
        for (unsigned i = 0; fresh && i < s.n; ++i) {
            in.push_back(g.real(-2, 2));
            ei.push_back(Ev(in.back()));
        }
        for (unsigned i = 0; fresh && i < s.m; ++i) {
            y.push_back(g.real(-2, 2));
            ey.push_back(Ev(y.back()));
        }
        const auto want = weighted<Ev>(s, x, ei, [&](unsigned k, unsigned j) { return Ev(w.at({k, j})); });
        const auto got = e(in);
        for (unsigned j = 0; j < s.m; ++j)
            c.require(ev::matches(got[j], want[j]), "value", "at ", in, " with weights ", e.get_weights(), " and chromosome ", x, " output ", j, " is ", got[j], ", expected ", want[j]);
        defined += !want[0].bad;
        const bool ce = g.flip();
        const auto l = loss_ref(want, ey, ce);
        const double gl = e.loss(in, y, ce ? dcgp::expression<double>::loss_type::CE : dcgp::expression<double>::loss_type::MSE);
        c.require(ev::matches(gl, l), "loss", "the loss is ", gl, ", expected ", l);
        if (op == ops) break;
        switch (g.raw(7)) {
            case 0: {
                const auto p = g.pick(o);
                w[p] = g.real(-3, 3);
                c.trace(" set_weight(", p.first, ",", p.second, ",", w[p], ")");
                e.set_weight(p.first, p.second, w[p]);
                ++set;
                break;
            }
            case 1:
            case 2: {
                std::vector<double> v;
                for (auto &p : o) {
                    v.push_back(g.real(-3, 3));
                    w[p] = v.back();
                }
                c.trace(" set_weights(", v, ")");
                e.set_weights(v);
                ++set;
                break;
            }
            case 3: {
                std::vector<double> v(g.flip() ? o.size() + g.u(1, 3) : static_cast<std::size_t>(g.raw(o.size() - 1)), 9.);
                c.trace(" set_weights of ", v.size());
                bool threw = false;
                try {
                    e.set_weights(v);
                } catch (const std::invalid_argument &) {
                    threw = true;
                }
                c.require(threw, "accepts-size", v.size(), " weights accepted for ", o.size());
                break;
            }
            case 4: {
                unsigned k = static_cast<unsigned>(g.raw(s.nodes() - 1)), j = static_cast<unsigned>(g.raw(5));
                if (g.chance(1, 4)) k = s.nodes() + g.u(0, 3);
                if (g.chance(1, 10)) j = 0xffffffffu - static_cast<unsigned>(g.raw(2));
                if (g.chance(1, 10)) k = 0xffffffffu - static_cast<unsigned>(g.raw(2));
                if (w.count({k, j})) break;
                c.trace(" bad (", k, ",", j, ")");
                for (int which = 0; which < 2; ++which) {
                    bool threw = false;
                    try {
                        if (which)
                            e.set_weight(k, j, 5.);
                        else
                            e.get_weight(k, j);
                    } catch (const std::invalid_argument &) {
                        threw = true;
                    }
                    c.require(threw, which ? "accepts-set" : "accepts-get", "the weight of node ", k, " input ", j, " can be ", which ? "set" : "read");
                }
                break;
            }
            case 5:
                x = chromosome(g, s);
                c.trace(" set");
                e.set(x);
                break;
            case 6: {
                const unsigned n = g.u(1, 5);
                c.trace(" mutate ", n);
                if (g.flip())
                    e.mutate_random(n);
                else
                    e.mutate_active(n);
                x = e.get();
                break;
            }
            default: {
                c.trace(" copy");
                E t(e);
                t.set_weights(std::vector<double>(o.size(), 77.));
                E u(e);
                e = u;
            }
        }
    }
    bool bad = false;
    try {
        e(std::vector<double>(s.n + 1, 0.));
    } catch (const std::invalid_argument &) {
        bad = true;
    }
    c.require(bad, "accepts-inputs", "evaluates with ", s.n + 1, " inputs");
    c.nontrivial(set && defined && e.get_active_nodes().back() >= s.in());
}

template <typename T>
static void taylor(Gen &g, Case &c)
{
    using E = dcgp::expression_weighted<T>;
    const bool vec = std::is_same<T, gdual_v>::value;
    const Shape s = shape(g, pool_of<E>(), Limits{2, 0, 2, 2, 2, 3, 4});
    const unsigned lanes = vec ? g.u(1, 3) : 1, ord = g.u(1, 2);
    E e = make<E>(s);
    e.set(chromosome(g, s));
    const auto o = order(s);
    std::vector<double> dir;
    std::vector<std::vector<double>> x;
    std::vector<T> in, ws;
    std::map<std::pair<unsigned, unsigned>, std::pair<double, double>> w; // value and direction
    for (unsigned i = 0; i < s.n; ++i) {
        std::vector<double> z;
        for (unsigned l = 0; l < lanes; ++l) z.push_back(g.real(-2, 2));
        in.push_back(gd::con<T>(z));
        x.push_back(z);
    }
    for (auto &p : o) {
        const double v = g.real(-2, 2);
        if (dir.size() < 4 && g.flip()) {
            ws.push_back(gd::var<T>(std::vector<double>(lanes, v), "s" + std::to_string(dir.size()), ord));
            dir.push_back(g.real(-1, 1));
            w[p] = {v, dir.back()};
        } else {
            ws.push_back(T(v));
            w[p] = {v, 0};
        }
    }
    c.note(s, ": x=", e.get(), " at ", x, " directions ", dir);
    if (g.flip()) {
        e.set_weights(ws);
    } else {
        for (std::size_t i = 0; i < o.size(); ++i) e.set_weight(o[i].first, o[i].second, ws[i]);
    }
    const auto out = e(in);
    unsigned ok = 0;
    for (unsigned l = 0; l < lanes; ++l) {
        // tame, with the weights
        bool good0 = true;
        {
            std::vector<Ev> a;
            for (auto &z : x) a.push_back(Ev(z[l]));
            evaluate<Ev>(s, e.get(), a, [&](unsigned f, unsigned node, std::vector<Ev> b) {
                for (unsigned j = 0; j < b.size(); ++j) b[j] = b[j] * Ev(w.at({node, j}).first);
                const Ev r = ev::ref_kernel(s.kernels[f], b);
                good0 = good0 && !r.bad && std::abs(r.v) < 1e30 && r.e < 1e-9L * (1 + std::abs(r.v));
                return r;
            });
        }
        for (unsigned j = 0; j < s.m; ++j) {
            ev::margin() = 1e300;
            const auto t = ev::taylor([&](q h) {
                std::vector<q> a;
                for (auto &z : x) a.push_back(q(z[l]));
                return weighted<q>(s, e.get(), a, [&](unsigned k, unsigned i) { return q(w.at({k, i}).first) + h * q(w.at({k, i}).second); })[j];
            }, 1e-5);
            bool good = good0 && ev::margin() >= 0.02 && std::abs(static_cast<double>(t[4])) < 1e6;
            double scale = 1;
            for (unsigned k = 0; k <= ord; ++k) {
                good = good && std::abs(static_cast<double>(t[k])) < 1e4;
                scale = std::max(scale, std::abs(static_cast<double>(t[k])));
            }
            if (!good) continue;
            ++ok;
            const auto got = gd::along(out[j], ord, dir, l);
            for (unsigned k = 0; k <= ord; ++k)
                c.require(std::abs(got[k] - static_cast<double>(t[k])) <= 1e-6 * scale, "taylor", "coefficient ", k, " of output ", j, " is ", got[k], ", expected ",
                          static_cast<double>(t[k]));
        }
    }
    c.label(ok ? "smooth" : "not smooth here");
    c.nontrivial(ok && !dir.empty() && e.get_active_nodes().back() >= s.in());
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "C01";
    p.rule = "random shapes over all kernels; histories of setting and reading weights (rightly and wrongly), setting and mutating the chromosome and copying, each step compared "
             "with a model of the weights and of the graph within a running error bound; Taylor weights against derivatives in quadruple precision; non-trivial: weights were "
             "set, some output is defined, some node active; counted distinct by choice sequence";
    p.subs = {{"history", 15000, 300000, history}, {"taylor", 10000, 200000, taylor<gdual_d>}, {"taylor-vectorized", 8000, 150000, taylor<gdual_v>}};
    p.assumptions = {"AuDi is replaced by a stand-in with the same interface"};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
