// W02: the text of a kernel denotes the function it computes.
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <dcgp/kernel_set.hpp>
#include <parser.hpp>
#include <pbt.hpp>

using pbt::Case;
using pbt::Gen;
using ev::Ev;

static const std::set<std::string> UNARY = {"sin", "cos", "exp", "log", "sqrt", "psqrt", "gaussian"};

struct Tree {
    double value;
    std::string text;
};
struct Builder {
    Gen &g;
    Case &c;
    dcgp::kernel_set<double> ks;
    std::map<std::string, Ev> vars;
    std::vector<std::pair<std::string, double>> names;
    std::string desc;
    unsigned depth_seen = 0;
    unsigned budget = 60;

    Builder(Gen &gg, Case &cc) : g(gg), c(cc), ks(ev::catalogue())
    {
        static const std::vector<std::string> pool = {"x", "y", "x0", "x1", "z_2", "c1", "theta", "exp1", "w12_3", "sinx", "E", "_u"};
        const unsigned n = g.u(1, 4);
        for (unsigned i = 0; i < n; ++i) {
            const std::string s = g.pick(pool);
            if (vars.count(s)) continue;
            const double v = g.chance(1, 8) ? 0. : g.real(-3, 3);
            vars[s] = Ev(v);
            names.emplace_back(s, v);
            desc += s + "=" + std::to_string(v) + " ";
        }
    }
    Tree leaf()
    {
        if (g.chance(1, 4)) {
            // a number, written as a program would
            const double v = (static_cast<double>(g.raw(64)) - 24.) / 8.;
            std::ostringstream ss;
            ss << v;
            desc += ss.str() + " ";
            return {v, ss.str()};
        }
        const auto &p = names[g.raw(names.size() - 1)];
        desc += p.first + " ";
        return {p.second, p.first};
    }
    Tree node(unsigned depth, unsigned d)
    {
        depth_seen = std::max(depth_seen, d);
        if (depth == 0 || budget == 0 || (d > 0 && g.chance(1, 4))) return leaf();
        --budget;
        const auto k = static_cast<std::size_t>(g.raw(ev::catalogue().size() - 1));
        const std::string name = ev::catalogue()[k];
        unsigned n = g.small(1, 5);
        if (name == "pdiv" && n < 2) n = 2;
        desc += name + "( ";
        std::vector<double> v;
        std::vector<std::string> s;
        for (unsigned i = 0; i < n; ++i) {
            Tree t = UNARY.count(name) && i > 0 ? leaf() : node(depth - 1, d + 1);
            v.push_back(t.value);
            s.push_back(t.text);
        }
        desc += ") ";
        return {ks[k](v), ks[k](s)};
    }
};

static void trees(Gen &g, Case &c)
{
    Builder b(g, c);
    const Tree t = b.node(g.u(1, 5), 0);
    c.note(b.desc, "-> ", t.text.substr(0, 600));
    Ev want;
    try {
        want = ev::eval_text(t.text, b.vars);
    } catch (const ev::Malformed &e) {
        c.fail("malformed", "not an expression: ", e.what());
    }
    c.label(want.bad ? "undefined" : "depth " + std::to_string(b.depth_seen));
    c.nontrivial(!want.bad && b.depth_seen >= 2);
    c.require(ev::matches(t.value, want), "denotes", "the text ", t.text, " has the value ", want, ", the kernels compute ", t.value);
}

// One kernel around texts printed by another one: every pair, systematically often.
static void pairs(Gen &g, Case &c)
{
    dcgp::kernel_set<double> ks(ev::catalogue());
    const auto N = ev::catalogue().size();
    const auto i = static_cast<std::size_t>(g.raw(N - 1)), j = static_cast<std::size_t>(g.raw(N - 1));
    const unsigned n = g.u(i == 4 ? 2 : 1, 3), m = g.u(j == 4 ? 2 : 1, 3);
    std::map<std::string, Ev> vars;
    std::vector<double> v;
    std::vector<std::string> s;
    for (unsigned a = 0; a < n; ++a) {
        std::vector<double> vi;
        std::vector<std::string> si;
        for (unsigned b = 0; b < m; ++b) {
            const double x = g.real(-2, 2);
            const std::string nm = "v" + std::to_string(a) + "_" + std::to_string(b);
            vars[nm] = Ev(x);
            vi.push_back(x);
            si.push_back(nm);
        }
        v.push_back(ks[j](vi));
        s.push_back(ks[j](si));
    }
    const double got = ks[i](v);
    const std::string text = ks[i](s);
    std::string vals;
    for (auto &p : vars) vals += p.first + "=" + std::to_string(static_cast<double>(p.second.v)) + " ";
    c.note(text, " at ", vals);
    Ev want;
    try {
        want = ev::eval_text(text, vars);
    } catch (const ev::Malformed &e) {
        c.fail("malformed", "not an expression: ", e.what());
    }
    c.label(want.bad ? "undefined" : ev::catalogue()[i]);
    c.nontrivial(!want.bad);
    c.require(ev::matches(got, want), "denotes", "the text ", text, " has the value ", want, ", the kernels compute ", got);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "W02";
    p.rule = "random trees of kernels up to depth five and five operands, whose leaves are names and numbers of either sign, and every pair of kernels one around the other; "
             "the text they print is parsed by an independent parser and its value compared, within a running error bound, with that of the kernels; non-trivial: "
             "the value is defined and, for trees, the depth is at least two; counted distinct by choice sequence";
    p.subs = {{"trees", 250000, 5000000, trees}, {"pairs", 150000, 2000000, pairs}};
    p.assumptions = {"operands are names, numbers or texts printed by kernels; the text of a protected division is that of the plain one, and is compared where the two agree"};
    p.case_cpu_s = 20;
    return pbt::run(argc, argv, p);
}
