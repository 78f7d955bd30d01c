// E02: evaluating an expression is evaluating the encoded graph.
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <expr.hpp>

using namespace cgp;
using audi::gdual_d;
using audi::gdual_v;
using ev::Ev;

template <typename T>
static const std::vector<std::string> &pool()
{
    static const std::vector<std::string> p = [] {
        auto v = ev::catalogue();
        if (!std::is_same<T, double>::value) v.erase(std::find(v.begin(), v.end(), "pdiv"));
        return v;
    }();
    return p;
}
template <typename F>
static bool rejects(F f)
{
    try {
        f();
    } catch (const std::invalid_argument &) {
        return true;
    }
    return false;
}
static Limits limits(Gen &g)
{
    return g.chance(1, 12) ? Limits{6, 4, 6, 8, 16, 6, 10} : Limits{};
}

// A random change of the chromosome, so that evaluation is looked at in states of all origins.
template <typename T>
static void change(Gen &g, Case &c, dcgp::expression<T> &e, const Shape &s)
{
    switch (g.raw(7)) {
        case 0:
            break;
        case 1:
        case 2:
            e.set(chromosome(g, s));
            c.trace(" set");
            break;
        case 3:
            e.mutate_random(g.u(1, 6));
            c.trace(" mutated");
            break;
        case 4: {
            const unsigned node = g.u(s.in(), s.nodes() - 1), f = g.u(0, static_cast<unsigned>(s.kernels.size()) - 1);
            e.set_f_gene(node, f);
            c.trace(" set_f_gene ", node, " ", f);
            break;
        }
        case 5:
            e.mutate_active(g.u(1, 4));
            c.trace(" mutated active");
            break;
        case 6:
            e.mutate_ogene(g.u(1, 3));
            c.trace(" mutated outputs");
            break;
        default: {
            const auto x = chromosome(g, s);
            e.set_from_range(x.begin(), x.end());
            c.trace(" set_from_range");
        }
    }
}

static void numbers(Gen &g, Case &c)
{
    const Shape s = shape(g, pool<double>(), limits(g));
    auto e = build<double>(s);
    c.note(s, ":");
    const unsigned n = g.small(1, 6);
    for (unsigned k = 0; k < n; ++k) {
        change(g, c, e, s);
        const Chrom x = e.get();
        c.trace(" x=", x);
        std::vector<double> in;
        const bool wild = g.chance(1, 5);
        for (unsigned i = 0; i < s.n; ++i) in.push_back(wild ? g.any_double() : g.real(-2, 2));
        c.trace(" at ", in, ";");
        const std::string before = snapshot(e);
        const auto &ce = e;
        const auto out = ce(in);
        c.require(snapshot(e) == before, "changed", "evaluation changed the expression");
        c.require(out.size() == s.m, "outputs", "evaluation gives ", out.size(), " values for ", s.m, " outputs");
        auto full = in;
        for (double v : e.get_eph_val()) full.push_back(v);
        const auto want = evaluate<double>(s, x, full, [&](unsigned f, unsigned, const std::vector<double> &a) { return e.get_f()[f](a); });
        for (unsigned j = 0; j < s.m; ++j)
            c.require(same(out[j], want[j]), "graph", "output ", j, " is ", out[j], " where the graph gives ", want[j], " for chromosome ", x, " at ", in);
        const auto again = ce(in);
        for (unsigned j = 0; j < s.m; ++j) c.require(same(out[j], again[j]), "repeat", "a second evaluation gives ", again[j], " instead of ", out[j]);
        // against the documented kernels
        std::vector<Ev> evi(full.begin(), full.end());
        const auto doc = evaluate_documented<Ev>(s, x, evi);
        unsigned defined = 0;
        for (unsigned j = 0; j < s.m; ++j) {
            defined += !doc[j].bad;
            c.require(ev::matches(out[j], doc[j]), "documented", "output ", j, " is ", out[j], " where the documented kernels give ", doc[j], " for chromosome ", x, " at ", in);
        }
        c.label(defined == s.m ? "all defined" : (defined ? "some defined" : "none defined"));
        c.nontrivial(defined && e.get_active_nodes().back() >= s.in());
        // from a list
        if (s.n == 1) c.require(same(ce({in[0]})[0], out[0]), "list", "evaluation from a list differs");
        if (s.n == 2) c.require(same(ce({in[0], in[1]})[0], out[0]), "list", "evaluation from a list differs");
        if (s.n == 3) c.require(same(ce({in[0], in[1], in[2]})[0], out[0]), "list", "evaluation from a list differs");
        // wrong number of inputs
        std::vector<double> bad(g.flip() ? s.n + g.u(1, 3) : g.u(0, s.n - 1), 1.);
        c.require(rejects([&] { ce(bad); }), "wrong-size", "a point of ", bad.size(), " instead of ", s.n, " values was accepted");
        c.require(snapshot(e) == before, "changed", "a rejected evaluation changed the expression");
    }
}

template <typename T>
static T variable(Gen &g, unsigned i, unsigned order);
template <>
gdual_d variable(Gen &g, unsigned i, unsigned order)
{
    const double v = g.real(-1, 1);
    if (g.chance(1, 4)) return gdual_d(v);
    return gdual_d(v, "x" + std::to_string(i), order);
}
template <>
gdual_v variable(Gen &g, unsigned i, unsigned order)
{
    const unsigned n = 3;
    std::vector<double> v;
    for (unsigned k = 0; k < n; ++k) v.push_back(g.real(-1, 1));
    if (g.chance(1, 4)) return gdual_v(v);
    return gdual_v(v, "x" + std::to_string(i), order);
}
template <typename T>
static std::string show(const T &x)
{
    std::ostringstream ss;
    ss.precision(17);
    ss << x;
    return ss.str();
}

template <typename T>
static void taylor(Gen &g, Case &c)
{
    const Shape s = shape(g, pool<T>(), Limits{3, 2, 3, 3, 5, 3, 5});
    auto e = build<T>(s);
    c.note(s, ":");
    change(g, c, e, s);
    const Chrom x = e.get();
    const unsigned order = g.u(1, 3);
    std::vector<T> in;
    for (unsigned i = 0; i < s.n; ++i) in.push_back(variable<T>(g, i, order));
    c.trace(" x=", x, " order ", order);
    const std::string before = snapshot(e);
    const auto &ce = e;
    const auto out = ce(in);
    c.require(snapshot(e) == before, "changed", "evaluation changed the expression");
    auto full = in;
    for (auto &v : e.get_eph_val()) full.push_back(v);
    const auto want = evaluate<T>(s, x, full, [&](unsigned f, unsigned, const std::vector<T> &a) { return e.get_f()[f](a); });
    c.require(out.size() == s.m, "outputs", "evaluation gives ", out.size(), " values for ", s.m, " outputs");
    for (unsigned j = 0; j < s.m; ++j)
        c.require(show(out[j]) == show(want[j]), "graph", "output ", j, " is ", show(out[j]), " where the graph gives ", show(want[j]));
    c.nontrivial(e.get_active_nodes().back() >= s.in());
    std::vector<T> bad(g.flip() ? s.n + 1 : s.n - 1, T(1.));
    c.require(rejects([&] { ce(bad); }), "wrong-size", "a point of ", bad.size(), " instead of ", s.n, " values was accepted");
}

static void text(Gen &g, Case &c)
{
    const Shape s = shape(g, pool<double>(), Limits{4, 3, 4, 3, 4, 3, 6});
    auto e = build<double>(s);
    c.note(s, ":");
    change(g, c, e, s);
    const Chrom x = e.get();
    std::vector<std::string> in;
    for (unsigned i = 0; i < s.n; ++i) in.push_back(g.chance(1, 3) ? g.text("abxy_01+*( )", 6) : "x" + std::to_string(i));
    c.trace(" x=", x, " at ", in);
    const std::string before = snapshot(e);
    const auto &ce = e;
    const auto out = ce(in);
    c.require(snapshot(e) == before, "changed", "evaluation changed the expression");
    auto full = in;
    for (auto &v : e.get_eph_symb()) full.push_back(v);
    const auto want = evaluate<std::string>(s, x, full, [&](unsigned f, unsigned, const std::vector<std::string> &a) { return e.get_f()[f](a); });
    c.require(out == want, "graph", "the text is ", out, " where the graph gives ", want);
    c.nontrivial(e.get_active_nodes().back() >= s.in());
    if (s.n == 1) c.require(ce({in[0]}) == out, "list", "text from a list differs");
    if (s.n == 3) c.require(ce({in[0], in[1], in[2]}) == out, "list", "text from a list differs");
    std::vector<std::string> bad(g.flip() ? s.n + g.u(1, 3) : g.u(0, s.n - 1), "z");
    c.require(rejects([&] { ce(bad); }), "wrong-size", bad.size(), " names instead of ", s.n, " were accepted");
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "E02";
    p.rule = "random shapes and chromosomes (uniform, deep, at the bounds), reached by construction, setting and mutation; values on numbers (special values too), both Taylor "
             "types and text compared exactly with a recursive interpretation of the chromosome by its own kernels and, on numbers, within a running error bound with the "
             "documented kernels; non-trivial: some node is active and, on numbers, some output is defined; counted distinct by choice sequence";
    p.subs = {{"numbers", 60000, 1200000, numbers}, {"gdual_d", 8000, 150000, taylor<gdual_d>}, {"gdual_v", 5000, 80000, taylor<gdual_v>}, {"text", 40000, 600000, text}};
    p.assumptions = {"AuDi is replaced by a stand-in with the same interface"};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
