// A01: a network evaluates its graph with weights, biases and activations.
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <net.hpp>

using namespace cgp;
using ev::Ev;
using E = dcgp::expression_ann;

static void history(Gen &g, Case &c)
{
    const Shape s = net_shape(g);
    c.note(s);
    E e = make<E>(s);
    Params p;
    p.w.assign(n_weights(s), 1.);
    p.b.assign(s.r * s.c, 0.);
    check_structure(c, e, s, nullptr, "when built");
    Chrom x = e.get();
    const unsigned ops = g.u(0, 6);
    unsigned defined = 0, points = 0;
    Data X, Y;
    for (unsigned op = 0; op <= ops; ++op) {
        c.require(e.get() == x, "chromosome", "the chromosome is ", e.get(), ", expected ", x);
        check_active(c, e, s, "now");
        c.require(e.get_weights() == p.w, "weights", "weights are ", e.get_weights(), ", expected ", p.w);
        c.require(e.get_biases() == p.b, "biases", "biases are ", e.get_biases(), ", expected ", p.b);
        if (op == 0 || g.flip()) { // otherwise the same points once more
            points = g.small(1, 6);
            X = data(g, points, s.n, g.chance(1, 5) ? 50 : 2, false);
            Y = data(g, points, s.m, 2, g.flip());
        }
        Ev mse(0.), ce(0.);
        for (unsigned i = 0; i < points; ++i) {
            const auto want = network<Ev>(s, x, as<Ev>(X[i]), as<Ev>(p.w), as<Ev>(p.b));
            const auto got = e(X[i]);
            c.require(got.size() == s.m, "outputs", got.size(), " outputs");
            for (unsigned j = 0; j < s.m; ++j)
                c.require(ev::matches(got[j], want[j]), "value", "at ", X[i], " with weights ", p.w, " biases ", p.b, " and chromosome ", x, " output ", j, " is ", got[j],
                          ", expected ", want[j]);
            mse = mse + loss_ref(want, as<Ev>(Y[i]), false);
            ce = ce + loss_ref(want, as<Ev>(Y[i]), true);
            defined += !want[0].bad;
        }
        const Ev n(static_cast<double>(points));
        const unsigned par = g.chance(1, 3) ? g.pick(divisors(points)) : 0;
        const double lm = e.loss(X, Y, "MSE", par), lc = e.loss(X, Y, "CE", par);
        c.require(ev::matches(lm, mse / n), "loss", "the MSE is ", lm, ", expected ", mse / n);
        c.require(ev::matches(lc, ce / n), "loss-ce", "the CE is ", lc, ", expected ", ce / n);
        if (s.n == 2 && points) {
            const auto got = e({X[0][0], X[0][1]});
            c.require(same(got[0], e(X[0])[0]), "list", "from a list: ", got);
        }
        if (op == ops) break;
        switch (g.raw(3)) {
            case 0:
                x = chromosome(g, s);
                c.trace(" set");
                e.set(x);
                break;
            case 1: {
                const unsigned n = g.u(1, 5);
                c.trace(" mutate ", n);
                if (g.flip())
                    e.mutate_random(n);
                else
                    e.mutate_active(n);
                x = e.get();
                break;
            }
            default: {
                const Params other = params(g, s);
                const unsigned which = g.u(0, 3);
                c.trace(which == 1 ? " weights" : which == 2 ? " biases" : " parameters");
                if (which != 2) {
                    p.w = other.w;
                    e.set_weights(p.w);
                }
                if (which != 1) {
                    p.b = other.b;
                    e.set_biases(p.b);
                }
            }
        }
    }
    bool threw = false;
    try {
        e(std::vector<double>(g.flip() ? s.n + 1 : s.n - 1, 0.));
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    c.require(threw, "accepts-inputs", "evaluates with a wrong number of inputs");
    c.nontrivial(ops && defined && e.get_active_nodes().back() >= s.in());
}
static void kernels(Gen &g, Case &c)
{
    Shape s = shape(g, ev::catalogue(), Limits{2, 0, 2, 2, 2, 3, 5});
    if (g.flip()) {
        for (auto &k : s.kernels) k = g.pick(ev::activations());
        if (g.flip()) {
            auto &k = s.kernels[static_cast<std::size_t>(g.raw(s.kernels.size() - 1))];
            k = g.pick(ev::catalogue());
            if (k == "pdiv") k = "div";
        }
    }
    c.note(s);
    bool legal = true;
    for (auto &k : s.kernels) legal = legal && std::find(ev::activations().begin(), ev::activations().end(), k) != ev::activations().end();
    bool built = false;
    try {
        make<E>(s);
        built = true;
    } catch (const std::invalid_argument &) {
    }
    c.require(built == legal, legal ? "rejects" : "accepts", "a network with kernels ", s.kernels, built ? " is built" : " is rejected");
    c.label(legal ? "activations" : "others");
    c.nontrivial();
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "A01";
    p.rule = "random networks over all activations (layered or not, nodes shared, outputs wired anywhere); histories of setting and mutating the chromosome and setting weights and "
             "biases, each step compared with a reference network within a running error bound, point by point and as losses, often at the points of the step before; lists of kernels "
             "to be rejected; non-trivial: "
             "something was changed, an output is defined and a node active, or any list of kernels; counted distinct by choice sequence";
    p.subs = {{"history", 20000, 400000, history}, {"kernels", 20000, 100000, kernels}};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
