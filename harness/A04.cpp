// A04: weights, biases and output activations of a network are what was set.
#include <net.hpp>

using namespace cgp;
using E = dcgp::expression_ann;

namespace
{
struct Model {
    Shape s;
    Chrom x;
    std::vector<double> w, b;
    std::vector<std::pair<unsigned, unsigned>> at; // node and input of each weight, in order
};
template <typename F>
bool throws(F &&f)
{
    try {
        f();
    } catch (const std::invalid_argument &) {
        return true;
    }
    return false;
}
void compare(Gen &g, Case &c, const Model &m, const E &e, const std::string &when)
{
    c.require(e.get() == m.x, "chromosome", when, ": the chromosome is ", e.get(), ", expected ", m.x);
    c.require(e.get_weights() == m.w, "weights", when, ": weights are ", e.get_weights(), ", expected ", m.w);
    c.require(e.get_biases() == m.b, "biases", when, ": biases are ", e.get_biases(), ", expected ", m.b);
    for (std::size_t i = 0; i < m.w.size(); ++i) {
        c.require(e.get_weight(i) == m.w[i], "weight by index", when, ": weight ", i, " reads ", e.get_weight(i), ", expected ", m.w[i]);
        const double v = e.get_weight(m.at[i].first, m.at[i].second);
        c.require(v == m.w[i], "weight by node", when, ": the weight of node ", m.at[i].first, " input ", m.at[i].second, " reads ", v, ", expected ", m.w[i]);
    }
    for (std::size_t i = 0; i < m.b.size(); ++i)
        c.require(e.get_bias(i) == m.b[i], "bias by index", when, ": bias ", i, " reads ", e.get_bias(i), ", expected ", m.b[i]);
    // active weights, from the graph
    unsigned all = 0, distinct = 0;
    for (unsigned k : reachable(m.s, m.x)) {
        if (k < m.s.in()) continue;
        std::set<unsigned> from;
        for (unsigned j = 0; j < m.s.node_arity(k); ++j) from.insert(m.x[m.s.gene(k) + 1 + j]);
        all += m.s.node_arity(k);
        distinct += static_cast<unsigned>(from.size());
    }
    c.require(e.n_active_weights() == all && e.n_active_weights(false) == all, "active weights", when, ": ", e.n_active_weights(), " active weights, expected ", all);
    c.require(e.n_active_weights(true) == distinct, "distinct weights", when, ": ", e.n_active_weights(true), " distinct active weights, expected ", distinct);
    if (g.chance(1, 3)) {
        std::vector<double> in;
        for (unsigned i = 0; i < m.s.n; ++i) in.push_back(g.real(-2, 2));
        Params p;
        p.w = m.w;
        p.b = m.b;
        if (tame_network(m.s, m.x, in, p)) {
            const auto got = e(in);
            const auto want = network<ev::Ev>(m.s, m.x, as<ev::Ev>(in), as<ev::Ev>(m.w), as<ev::Ev>(m.b));
            for (unsigned i = 0; i < m.s.m; ++i)
                c.require(ev::matches(got[i], want[i]), "value", when, ": output ", i, " is ", got[i], ", expected ", double(want[i].v));
        }
    }
}
} // namespace

static void histories(Gen &g, Case &c)
{
    Model m;
    m.s = net_shape(g);
    if (g.chance(1, 3) && m.s.kernels.size() > 1) m.s.kernels.push_back(m.s.kernels[g.raw(m.s.kernels.size() - 1)]); // the same kernel twice
    const Shape &s = m.s;
    E e = make<E>(s);
    c.note(s, ":");
    m.x = e.get();
    for (unsigned k = s.in(); k < s.nodes(); ++k)
        for (unsigned j = 0; j < s.node_arity(k); ++j) m.at.push_back({k, j});
    m.w.assign(m.at.size(), 1.);
    m.b.assign(s.r * s.c, 0.);
    c.require(e.get_weights() == m.w, "initial weights", "the weights of a new network are ", e.get_weights());
    c.require(e.get_biases() == m.b, "initial biases", "the biases of a new network are ", e.get_biases());
    const unsigned ops = g.u(2, 8);
    unsigned kinds = 0;
    for (unsigned o = 0; o < ops; ++o) {
        const unsigned op = static_cast<unsigned>(g.raw(12));
        kinds |= 1u << op;
        std::string name;
        switch (op) {
            case 0: {
                const std::size_t i = g.raw(m.w.size() - 1);
                const double v = g.real(-3, 3);
                name = "set_weight(" + std::to_string(m.at[i].first) + "," + std::to_string(m.at[i].second) + ")";
                c.trace(" ", name, "=", v);
                e.set_weight(m.at[i].first, m.at[i].second, v);
                m.w[i] = v;
                break;
            }
            case 1: {
                const std::size_t i = g.raw(m.w.size() - 1);
                const double v = g.real(-3, 3);
                name = "set_weight(" + std::to_string(i) + ")";
                c.trace(" ", name, "=", v);
                e.set_weight(i, v);
                m.w[i] = v;
                break;
            }
            case 2: {
                const std::size_t i = g.raw(m.b.size() - 1);
                const double v = g.real(-3, 3);
                name = "set_bias(" + std::to_string(i) + ")";
                c.trace(" ", name, "=", v);
                e.set_bias(i, v);
                m.b[i] = v;
                break;
            }
            case 3:
                for (double &v : m.w) v = g.real(-3, 3);
                name = "set_weights";
                c.trace(" ", name, " ", m.w);
                e.set_weights(m.w);
                break;
            case 4:
                for (double &v : m.b) v = g.real(-3, 3);
                name = "set_biases";
                c.trace(" ", name, " ", m.b);
                e.set_biases(m.b);
                break;
            case 5:
            case 6: {
                const double mean = g.real(-3, 3), dev = g.pick(std::vector<double>{0.1, 1, 0.5, 3, 1e-3});
                const unsigned seed = static_cast<unsigned>(g.seed());
                const bool w = op == 5, defaults = g.chance(1, 5);
                name = w ? "randomise_weights" : "randomise_biases";
                c.trace(" ", name, "(", defaults ? 0. : mean, ",", defaults ? 0.1 : dev, ",", seed, ")");
                std::mt19937 gen(seed);
                std::normal_distribution<double> nd(defaults ? 0. : mean, defaults ? 0.1 : dev);
                for (double &v : w ? m.w : m.b) v = nd(gen);
                if (w)
                    e.randomise_weights(defaults ? 0. : mean, defaults ? 0.1 : dev, seed);
                else
                    e.randomise_biases(defaults ? 0. : mean, defaults ? 0.1 : dev, seed);
                break;
            }
            case 7: { // unseeded: only the law is known
                const bool w = g.flip();
                const double mean = g.real(-3, 3), dev = g.pick(std::vector<double>{0.1, 1, 0.5, 3, 1e-3});
                name = w ? "randomise_weights unseeded" : "randomise_biases unseeded";
                c.trace(" ", name, "(", mean, ",", dev, ")");
                if (w)
                    e.randomise_weights(mean, dev);
                else
                    e.randomise_biases(mean, dev);
                const auto &v = w ? e.get_weights() : e.get_biases();
                auto &mine = w ? m.w : m.b;
                c.require(v.size() == mine.size(), "size", name, ": there are ", v.size(), " values, expected ", mine.size());
                for (double z : v) c.require(std::abs(z - mean) <= 12 * dev, "law", name, "(", mean, ",", dev, ") gave ", z);
                mine = v;
                break;
            }
            case 8: {
                const bool w = g.flip();
                const std::size_t n = w ? m.w.size() : m.b.size();
                const std::vector<double> v(g.flip() ? n + g.u(1, 3) : static_cast<std::size_t>(g.raw(n - 1)), 9.);
                name = w ? "set_weights of another size" : "set_biases of another size";
                c.trace(" ", name, " ", v.size());
                c.require(throws([&] { w ? e.set_weights(v) : e.set_biases(v); }), "accepted: size", name, " (", v.size(), " for ", n, ") is accepted");
                break;
            }
            case 9: {
                const bool node = g.flip();
                if (node) {
                    unsigned k = static_cast<unsigned>(g.raw(s.nodes() - 1)), j = static_cast<unsigned>(g.raw(5));
                    if (g.chance(1, 4)) k = s.nodes() + g.u(0, 3);
                    if (g.chance(1, 10)) j = 0xffffffffu - static_cast<unsigned>(g.raw(2));
                    if (g.chance(1, 10)) k = 0xffffffffu - static_cast<unsigned>(g.raw(2));
                    if (k >= s.in() && k < s.nodes() && j < s.node_arity(k)) break;
                    name = "weight of a bad place (" + std::to_string(k) + "," + std::to_string(j) + ")";
                    c.trace(" ", name);
                    c.require(throws([&] { e.set_weight(k, j, 5.); }), "accepted: node", name, " can be set");
                    c.require(throws([&] { e.get_weight(k, j); }), "read: node", name, " can be read");
                } else {
                    const bool w = g.flip();
                    const std::size_t n = (w ? m.w.size() : m.b.size())
                                          + (g.chance(1, 4) ? g.pick(std::vector<std::size_t>{0xffffffffu, std::size_t(1) << 40}) : static_cast<std::size_t>(g.u(0, 3)));
                    name = (w ? "weight " : "bias ") + std::to_string(n);
                    c.trace(" bad ", name);
                    c.require(throws([&] { w ? e.set_weight(n, 5.) : e.set_bias(n, 5.); }), "accepted: index", name, " can be set");
                    c.require(throws([&] { w ? e.get_weight(n) : e.get_bias(n); }), "read: index", name, " can be read");
                }
                break;
            }
            case 10: { // an output activation
                std::string f = g.pick(s.kernels);
                if (g.chance(1, 4)) {
                    static const std::vector<std::string> odd = {"", "SIG", "sigm", "Tanh", "relu", "cos", "diff", "mul", "sum "};
                    f = g.flip() ? g.pick(ev::activations()) : g.pick(odd);
                }
                name = "set_output_f(" + f + ")";
                c.trace(" ", name);
                const auto it = std::find(s.kernels.begin(), s.kernels.end(), f);
                bool wired = false;
                for (unsigned i = 0; i < s.m; ++i) wired = wired || m.x[m.x.size() - 1 - i] < s.in();
                if (it == s.kernels.end() || wired) {
                    c.require(throws([&] { e.set_output_f(f); }), wired ? "accepted: wired" : "accepted: name", name,
                              wired ? " is accepted with an output wired to an input" : " is accepted, without such a kernel");
                    c.label(wired ? "output wired to an input" : "unknown activation");
                } else {
                    e.set_output_f(f);
                    // any kernel of that name will do
                    for (unsigned i = 0; i < s.m; ++i) {
                        const unsigned gene = s.gene(m.x[m.x.size() - 1 - i]);
                        const unsigned k = e.get()[gene];
                        c.require(k < s.kernels.size() && s.kernels[k] == f, "output activation", name, ": the node feeding output ", s.m - 1 - i, " has kernel ", k);
                        m.x[gene] = k;
                    }
                    c.label("output activation");
                }
                break;
            }
            case 11: { // the chromosome moves, the parameters do not
                m.x = chromosome(g, s);
                name = "set";
                c.trace(" ", name, " ", m.x);
                e.set(m.x);
                break;
            }
            default: {
                const unsigned n = g.u(0, 4);
                name = "mutate_active";
                c.trace(" ", name, " ", n);
                e.mutate_active(n);
                m.x = e.get();
            }
        }
        compare(g, c, m, e, "after " + name);
    }
    c.nontrivial((kinds & (kinds - 1)) != 0);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "A04";
    p.rule = "random networks and histories of settings (single, whole, random, out of range, output activations, mutations), every accessor compared with a model after each; "
             "non-trivial: at least two kinds of operation; counted distinct by choice sequence";
    p.subs = {{"histories", 60000, 1000000, histories}};
    p.assumptions = {"which of two equal kernels set_output_f picks is left open; unseeded random values are only checked to lie within twelve deviations"};
    return pbt::run(argc, argv, p);
}
