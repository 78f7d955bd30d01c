// E05: the text of an expression denotes its values.
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <expr.hpp>
#include <parser.hpp>

using namespace cgp;
using ev::Ev;

static void text(Gen &g, Case &c)
{
    static const std::vector<std::string> few = {"sum", "diff", "mul", "div", "inv_sum", "gaussian", "pdiv"};
    const bool f = g.chance(1, 3);
    const Shape s = shape(g, f ? few : ev::catalogue(), Limits{4, 3, 3, 3, 5, 3, 6});
    auto e = build<double>(s);
    c.note(s, ":");
    switch (g.raw(3)) {
        case 0:
            break;
        case 1:
            e.set(chromosome(g, s));
            break;
        case 2:
            e.mutate_random(g.u(1, 10));
            break;
        default:
            e.set(chromosome(g, s));
            e.mutate_active(g.u(1, 5));
    }
    // names and values
    static const std::vector<std::string> forms = {"x", "y_", "v0_", "alpha", "E", "_q", "sinx", "c_x"};
    std::vector<std::string> names;
    std::vector<double> in;
    std::map<std::string, Ev> vars;
    const std::string stem = g.pick(forms);
    for (unsigned i = 0; i < s.n; ++i) {
        names.push_back(stem + std::to_string(i));
        in.push_back(g.chance(1, 8) ? 0. : g.real(-2, 2));
        vars[names.back()] = Ev(in.back());
    }
    unsigned whole = 0;
    const auto plain = vars;
    for (unsigned rounds = g.u(1, 3); rounds > 0; --rounds) {
        vars = plain;
        if (s.n_eph && g.flip()) {
            std::vector<std::string> sym;
            std::vector<double> val;
            const std::string root = g.pick(std::vector<std::string>{"k", "q", "eph_"});
            for (unsigned i = 0; i < s.n_eph; ++i) {
                sym.push_back(root + std::to_string(s.n_eph - i));
                val.push_back(g.real(-3, 3));
            }
            e.set_eph_symb(sym);
            e.set_eph_val(val);
        }
        for (unsigned i = 0; i < s.n_eph; ++i) vars[e.get_eph_symb()[i]] = Ev(e.get_eph_val()[i]);
        c.trace(" x=", e.get(), " at ", in, " constants ", e.get_eph_val());
        const auto out = e(in);
        const auto t = e(names);
        c.trace(" ", e.get_eph_symb());
        // Where a product of divisors underflows, a protected division and its text part ways.
        std::vector<Ev> inputs;
        for (double v : in) inputs.push_back(Ev(v));
        for (double v : e.get_eph_val()) inputs.push_back(Ev(v));
        const auto documented = evaluate_documented<Ev>(s, e.get(), inputs);
        const bool protects = std::find(s.kernels.begin(), s.kernels.end(), "pdiv") != s.kernels.end();
        c.require(t.size() == s.m, "outputs", t.size(), " texts for ", s.m, " outputs");
        unsigned defined = 0;
        for (unsigned j = 0; j < s.m; ++j) {
            if (t[j].size() > 100000) {
                c.label("long text");
                continue;
            }
            if (protects && documented[j].bad) {
                c.label("protected");
                continue;
            }
            Ev want;
            try {
                want = ev::eval_text(t[j], vars);
            } catch (const ev::Malformed &x) {
                c.fail("malformed", "not an expression: ", x.what());
            }
            defined += !want.bad;
            c.require(ev::matches(out[j], want), "denotes", "output ", j, " is printed as ", t[j], " which has the value ", want, ", and evaluates to ", out[j]);
        }
        c.label(defined ? "defined" : "undefined");
        whole += defined && e.get_active_nodes().back() >= s.in();
        // once more with the same names, or others, something having changed
        switch (g.raw(3)) {
            case 0:
                e.set(chromosome(g, s));
                break;
            case 1:
                e.mutate_active(g.u(1, 4));
                break;
            default:
                break;
        }
    }
    c.nontrivial(whole);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "E05";
    p.rule = "random shapes over all kernels (a third over those whose texts combine by precedence), chromosomes set and mutated, names of many forms, constants renamed and "
             "revalued, the program changed and printed again; each printed output is parsed by an independent parser and compared, within a running error bound, with the numeric output; non-trivial: some node "
             "is active and some output defined; counted distinct by choice sequence";
    p.subs = {{"text", 120000, 2500000, text}};
    p.assumptions = {"the text of a protected division is that of the plain one, and is compared where the two agree"};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
