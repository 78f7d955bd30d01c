// C02: the text of a weighted expression or of a network denotes its values.
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <anyexpr.hpp>
#include <parser.hpp>

using namespace cgp;
using ev::Ev;

template <typename E>
static void text(Gen &g, Case &c)
{
    static const std::vector<std::string> precedence = {"sum", "diff", "mul", "div", "inv_sum", "gaussian", "gaussian_nu", "abs"};
    static const std::vector<std::string> net_precedence = {"sum", "inv_sum", "gaussian_nu", "abs", "sin_nu"};
    const Shape s = shape(g, g.chance(1, 3) ? (is_net<E> ? net_precedence : precedence) : pool_of<E>(), Limits{3, 0, 3, 3, 4, 3, 5});
    E e = make<E>(s);
    c.note(s, ":");
    const unsigned past = g.u(0, 6);
    for (unsigned i = 0; i < past; ++i) random_op(g, c, s, e);
    unsigned whole = 0;
    static const std::vector<std::string> forms = {"x", "y_", "v0_", "alpha", "w_", "bias"};
    const std::string stem = g.pick(forms);
    std::vector<std::string> names;
    std::vector<double> in;
    std::map<std::string, Ev> vars;
    for (unsigned i = 0; i < s.n; ++i) {
        names.push_back(stem + std::to_string(i));
        in.push_back(g.chance(1, 8) ? 0. : g.real(-2, 2));
        vars[names.back()] = Ev(in.back());
    }
    for (unsigned rounds = g.u(1, 3); rounds > 0; --rounds) { // again with the same names and inputs
        if (g.flip()) {
            std::vector<double> w;
            for (std::size_t i = 0; i < e.get_weights().size(); ++i) w.push_back(g.real(-2, 2));
            e.set_weights(w);
        }
        for (unsigned k = s.in(); k < s.nodes(); ++k) {
            for (unsigned j = 0; j < s.node_arity(k); ++j) vars["w" + std::to_string(k) + "_" + std::to_string(j)] = Ev(e.get_weight(k, j));
            if constexpr (is_net<E>) vars["b" + std::to_string(k)] = Ev(e.get_bias(k - s.in()));
        }
        c.trace(" x=", e.get(), " at ", in, " weights ", e.get_weights());
        const auto t = e(names);
        c.require(t.size() == s.m, "outputs", t.size(), " texts for ", s.m, " outputs");
        const auto out = e(in);
        // where a product of divisors underflows, a protected division and its text part ways
        std::vector<Ev> ei;
        for (double v : in) ei.push_back(Ev(v));
        const auto documented = evaluate<Ev>(s, e.get(), ei, [&](unsigned f, unsigned node, std::vector<Ev> a) {
            for (unsigned j = 0; j < a.size(); ++j) a[j] = a[j] * vars.at("w" + std::to_string(node) + "_" + std::to_string(j));
            if constexpr (is_net<E>) a[0] = a[0] + vars.at("b" + std::to_string(node));
            return ev::ref_kernel(s.kernels[f], a);
        });
        const bool protects = std::find(s.kernels.begin(), s.kernels.end(), "pdiv") != s.kernels.end();
        unsigned defined = 0;
        for (unsigned j = 0; j < s.m; ++j) {
            if (t[j].size() > 100000) continue;
            if (protects && documented[j].bad) continue;
            Ev want;
            try {
                want = ev::eval_text(t[j], vars);
            } catch (const ev::Malformed &x) {
                c.fail("malformed", "output ", j, " is printed as ", t[j], ": ", x.what());
            }
            defined += !want.bad;
            c.require(ev::matches(out[j], want), "denotes", "output ", j, " is printed as ", t[j], " which has the value ", want, ", and evaluates to ", out[j]);
        }
        c.label(defined ? "defined" : "undefined");
        whole += defined && e.get_active_nodes().back() >= s.in();
        random_op(g, c, s, e);
    }
    bool threw = false;
    try {
        names.push_back("extra");
        e(names);
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    c.require(threw, "accepts-names", "prints with one name too many");
    c.nontrivial(whole);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "C02";
    p.rule = "random weighted expressions over all kernels and networks over all activations, with random weights, biases and past, looked at several times with changes in between; each printed output is parsed by an independent "
             "parser, with the documented symbols for weights and biases, and compared within a running error bound with the numeric output; non-trivial: some node is active and "
             "some output defined; counted distinct by choice sequence";
    p.subs = {{"weighted", 60000, 1000000, text<dcgp::expression_weighted<double>>}, {"network", 60000, 1000000, text<dcgp::expression_ann>}};
    p.assumptions = {"the text of a protected division is that of the plain one, and is compared where the two agree"};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
