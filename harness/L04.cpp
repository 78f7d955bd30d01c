// L04: algorithms reject what they cannot evolve.
// FLAGS: -O1 -g0 -D_GLIBCXX_ASSERTIONS -fsanitize=undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include <evolve.hpp>
#include <pagmo/problems/rosenbrock.hpp>
#include <pagmo/problems/zdt.hpp>
PAGMO_S11N_PROBLEM_EXPORT(cgp::Recorder)
PAGMO_S11N_BFE_EXPORT(cgp::one_by_one)

using namespace cgp;

enum Outcome { OK, INVALID, OTHER };
template <typename F>
static Outcome outcome(F &&f, std::string &text)
{
    try {
        f();
    } catch (const std::invalid_argument &e) {
        text = e.what();
        return INVALID;
    } catch (const std::exception &e) {
        text = e.what();
        return OTHER;
    }
    return OK;
}
static void parameters(Gen &g, Case &c)
{
    Plan p = plan(g);
    bool legal = true;
    if (p.kind == GD) {
        const std::vector<double> v{0, -1, -1e-300, 1e-300, 1e-3, 0.5, 1, 1.5, 1e300, std::numeric_limits<double>::infinity(), g.real(-2, 2)};
        p.lr = g.pick(v);
        p.lr_min = g.flip() ? p.lr : g.pick(v);
        legal = p.lr_min > 0 && p.lr_min < p.lr;
    } else {
        if (g.flip()) p.max_mut = g.pick(std::vector<unsigned>{0, 0, 1, 2, 1000000, 4294967295u});
        if (g.flip()) p.ftol = g.pick(std::vector<double>{0., -0., -1e-300, -1, -std::numeric_limits<double>::infinity(), 1e-300, std::numeric_limits<double>::infinity()});
        legal = p.max_mut > 0 && p.ftol >= 0;
    }
    c.note(p);
    std::string text;
    const auto o = outcome([&] { p.build(); }, text);
    c.require(o == (legal ? OK : INVALID), legal ? "refused" : "accepted", legal ? "legal parameters are refused: " : "impossible parameters are not refused with std::invalid_argument ", text);
    c.label(legal ? "legal" : "illegal");
    c.nontrivial(!legal);
}
static void populations(Gen &g, Case &c)
{
    Plan p = plan(g);
    p.gen = g.u(0, 3);
    static const std::vector<std::string> plain = {"sum", "diff", "mul", "div"};
    Config k = config_for(g, p, plain);
    std::vector<std::string> wrong;
    unsigned size = g.u(2, 5);
    bool foreign = false;
    if (g.flip()) {
        switch (g.raw(3)) {
            case 0:
                if (p.kind != GD) {
                    size = g.u(0, 1);
                    wrong.push_back("size");
                }
                break;
            case 1:
                k.multi = !k.multi;
                wrong.push_back("objectives");
                break;
            case 2:
                foreign = true;
                wrong.push_back("problem");
                break;
            default:
                if (p.kind == GD) {
                    k.s.n_eph = 0;
                    wrong.push_back("constants");
                }
        }
    }
    const bool plainly = g.flip();
    const bool two = g.flip();
    const pagmo::problem prob = foreign ? (two ? pagmo::problem(pagmo::zdt(1u, 5u)) : pagmo::problem(pagmo::rosenbrock(g.u(2, 4)))) : plainly ? pagmo::problem(k.build()) : pagmo::problem(Recorder{k.build()});
    pagmo::population pop(prob, 0u, static_cast<unsigned>(g.seed()));
    for (unsigned i = 0; i < size; ++i) foreign ? pop.push_back(pop.random_decision_vector()) : pop.push_back(candidate(g, k));
    c.note(p, foreign ? " on another problem " : " on ", k, " with ", size, " individuals, wrong: ", wrong);
    const pagmo::population before(pop);
    Algorithm a = p.build();
    const Algorithm copy = a;
    std::string text;
    Outcome o;
    pagmo::population after(before);
    {
        Capture quiet;
        o = outcome([&] { after = evolve(a, pop); }, text);
    }
    c.require(o == (wrong.empty() ? OK : INVALID), wrong.empty() ? "refused" : "accepted", wrong.empty() ? "a legal population is refused: " : "an impossible population is not refused with std::invalid_argument ", text);
    bool unchanged = pop.size() == before.size() && pop.get_problem().get_fevals() == before.get_problem().get_fevals();
    for (std::size_t i = 0; unchanged && i < pop.size(); ++i) unchanged = same(pop.get_x()[i], before.get_x()[i]) && same(pop.get_f()[i], before.get_f()[i]);
    c.require(unchanged, "changed", "the population given is changed");
    if (!wrong.empty()) {
        c.require(!text.empty(), "silent", "the exception says nothing");
        // nothing of the algorithm changed: a good population is evolved as if nothing had happened
        Plan q = p;
        Config good = config_for(g, q, plain);
        pagmo::population fine(pagmo::problem(good.build()), 0u, 1u);
        for (unsigned i = g.u(2, 4); i > 0; --i) fine.push_back(candidate(g, good));
        Capture quiet;
        const auto x = evolve(a, fine), y = evolve(copy, fine);
        bool equal = x.size() == y.size();
        for (std::size_t i = 0; equal && i < x.size(); ++i) equal = same(x.get_x()[i], y.get_x()[i]) && same(x.get_f()[i], y.get_f()[i]);
        c.require(equal, "traces", "having refused a population, a good one becomes ", show(x), " instead of ", show(y));
    }
    for (auto &w : wrong) c.label(std::string(kind_name(p.kind)) + ": " + w);
    c.nontrivial(!wrong.empty());
}

int main(int argc, char **argv)
{
    watch();
    pbt::Property p;
    p.id = "L04";
    p.rule = "random legal and illegal parameters; random populations, half of them too small, of another problem, number of objectives, or without constants; "
             "non-trivial: something is illegal; counted distinct by choice sequence";
    p.subs = {{"parameters", 20000, 200000, parameters}, {"populations", 30000, 400000, populations}};
    p.assumptions = {"with the stand-ins for AuDi and SymEngine", "parameters that are not numbers are left open"};
    return pbt::run(argc, argv, p);
}
