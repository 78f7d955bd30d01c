// L02: evolution is deterministic given its seeds.
// FLAGS: -O1 -g0 -D_GLIBCXX_ASSERTIONS -fsanitize=undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include <evolve.hpp>
#include <pagmo/algorithm.hpp>
PAGMO_S11N_PROBLEM_EXPORT(cgp::Recorder)
PAGMO_S11N_BFE_EXPORT(cgp::one_by_one)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::es4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::moes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::mes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::momes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::gd4cgp)

using namespace cgp;

static const std::vector<std::string> &kernels(Gen &g)
{
    static const std::vector<std::string> plain = {"sum", "diff", "mul", "div"}, more = {"sum", "diff", "mul", "sin", "exp", "gaussian", "inv_sum", "tanh"};
    return g.chance(1, 2) ? plain : g.chance(1, 2) ? more : ev::catalogue();
}
template <typename Out, typename In, typename A>
static void transfer(const A &from, A &to)
{
    std::stringstream ss;
    {
        Out oa(ss);
        oa << from;
    }
    In ia(ss);
    ia >> to;
}
template <typename A>
static void transfer(const A &from, A &to, bool text)
{
    text ? transfer<boost::archive::text_oarchive, boost::archive::text_iarchive>(from, to) : transfer<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(from, to);
}
struct Result {
    std::vector<pagmo::population> pops;
    std::vector<std::vector<Line>> logs;
};
static std::string info(const Algorithm &a)
{
    return std::visit([](auto &x) { return x.get_name() + "\n" + x.get_extra_info(); }, a);
}
static void compare(Case &c, const pagmo::population &a, const pagmo::population &b, const std::string &what)
{
    bool equal = a.size() == b.size();
    for (std::size_t i = 0; equal && i < a.size(); ++i) equal = same(a.get_x()[i], b.get_x()[i]) && same(a.get_f()[i], b.get_f()[i]);
    c.require(equal, "population: " + what, what, " gives the population ", show(b), " instead of ", show(a));
}
static void compare(Case &c, const std::vector<Line> &a, const std::vector<Line> &b, const std::string &what)
{
    c.require(a.size() == b.size(), "log: " + what, what, " gives ", b.size(), " log lines instead of ", a.size());
    for (std::size_t i = 0; i < a.size(); ++i) c.require(a[i] == b[i], "log: " + what, what, " gives the log line ", b[i], " instead of ", a[i]);
}
static void twins(Gen &g, Case &c)
{
    PlanLimits L;
    L.threads = g.chance(1, 8);
    const Plan p = plan(g, L);
    const Config k = config_for(g, p, kernels(g));
    // no recorder: a problem as users have
    pagmo::population start(pagmo::problem(k.build()), 0u, static_cast<unsigned>(g.seed()));
    for (unsigned i = g.u(2, 6); i > 0; --i) start.push_back(candidate(g, k));
    std::string select, replace;
    if (p.kind == GD && g.flip()) select = g.pick(std::vector<std::string>{"best", "worst", "random"});
    if (p.kind == GD && g.flip()) replace = g.pick(std::vector<std::string>{"best", "worst", "random"});
    const unsigned policy_seed = static_cast<unsigned>(g.seed());
    const unsigned rounds = g.u(1, 3);
    c.note(p, " on ", k, " population ", show(start), " rounds ", rounds, " ", select, " ", replace);
    const auto make = [&](const Plan &q) {
        Algorithm a = q.build();
        if (auto gd = std::get_if<dcgp::gd4cgp>(&a)) {
            gd->set_random_sr_seed(policy_seed);
            if (!select.empty()) gd->set_selection(select);
            if (!replace.empty()) gd->set_replacement(replace);
        }
        return a;
    };
    Algorithm a = make(p);
    Result want;
    want.pops.push_back(start);
    want.logs.push_back({});
    const auto variation = g.raw(7);
    const unsigned when = static_cast<unsigned>(g.raw(rounds - 1)); // after how many rounds
    Capture quiet;
    Algorithm saved = a;
    for (unsigned r = 0; r < rounds; ++r) {
        if (r == when) saved = a;
        want.pops.push_back(evolve(a, want.pops.back()));
        want.logs.push_back(log_of(a));
    }
    bool logs = true;
    Plan q = p;
    std::string what;
    switch (variation) {
        case 0: { // a copy
            what = "a copy";
            for (unsigned r = when; r < rounds; ++r) {
                compare(c, want.pops[r + 1], evolve(saved, want.pops[r]), what);
                compare(c, want.logs[r + 1], log_of(saved), what);
            }
            break;
        }
        case 1: { // an archive, loaded into another algorithm of the same kind
            bool finite = true;
            for (auto &l : want.logs[when]) {
                finite = finite && std::isfinite(l.best) && std::isfinite(l.complexity) && std::isfinite(l.norm);
                for (double v : l.constants) finite = finite && std::isfinite(v);
            }
            const bool text = finite && g.flip();
            what = text ? "a text archive" : "a binary archive";
            Plan other = plan(g);
            other.kind = p.kind;
            Algorithm b = g.flip() ? other.build() : Algorithm(p.kind == ES ? Algorithm(dcgp::es4cgp()) : p.kind == MOES ? Algorithm(dcgp::moes4cgp()) : p.kind == MES ? Algorithm(dcgp::mes4cgp()) : p.kind == MOMES ? Algorithm(dcgp::momes4cgp()) : Algorithm(dcgp::gd4cgp()));
            if (p.kind == ES || p.kind == MOES || true) std::visit([&](auto &from) { transfer(from, std::get<std::decay_t<decltype(from)>>(b), text); }, saved);
            c.require(info(saved) == info(b), "described: archive", "loaded from ", what, ", it describes itself as ", info(b), " instead of ", info(saved));
            compare(c, want.logs[when], log_of(b), what);
            for (unsigned r = when; r < rounds; ++r) {
                compare(c, want.pops[r + 1], evolve(b, want.pops[r]), what);
                compare(c, want.logs[r + 1], log_of(b), what);
            }
            break;
        }
        case 2: { // inside a pagmo::algorithm, copied or archived
            const bool archive = g.flip();
            what = archive ? "an archive of a pagmo::algorithm" : "a pagmo::algorithm";
            pagmo::algorithm b = std::visit([](auto &x) { return pagmo::algorithm(x); }, saved);
            if (archive) {
                pagmo::algorithm d;
                transfer(b, d, false);
                b = d;
            }
            for (unsigned r = when; r < rounds; ++r) {
                compare(c, want.pops[r + 1], b.evolve(want.pops[r]), what);
                std::visit(
                    [&](auto &x) {
                        using A = std::decay_t<decltype(x)>;
                        c.require(b.is<A>(), "kind", "it is of another kind");
                        compare(c, want.logs[r + 1], log_of(Algorithm(*b.extract<A>())), what);
                    },
                    saved);
            }
            break;
        }
        case 3: // a twin
            what = "a twin";
            break;
        case 4:
            what = "another verbosity";
            q.verbosity = p.verbosity ? 0 : g.u(1, 3);
            logs = false;
            break;
        case 5:
            what = "another evaluation scheme";
            q.bfe = p.bfe ? 0 : 1;
            break;
        case 6: { // the seed set again
            what = "setting the seed";
            if (p.kind == GD) break;
            Algorithm b = g.flip() ? a : [&] {
                Plan o = p;
                o.seed = static_cast<unsigned>(g.seed());
                return make(o);
            }();
            std::visit(
                [&](auto &x) {
                    using A = std::decay_t<decltype(x)>;
                    if constexpr (!std::is_same<A, dcgp::gd4cgp>::value) {
                        x.set_seed(p.seed);
                        c.require(x.get_seed() == p.seed, "seed", "the seed is ", x.get_seed(), " after setting it to ", p.seed);
                    }
                },
                b);
            c.require(info(b) == info(a), "described: seed", "with the seed set, it describes itself as ", info(b), " instead of ", info(a));
            for (unsigned r = 0; r < rounds; ++r) {
                compare(c, want.pops[r + 1], evolve(b, want.pops[r]), what);
                compare(c, want.logs[r + 1], log_of(b), what);
            }
            break;
        }
        default: { // from a copy of the population, made of the same individuals
            what = "a population of the same individuals";
            Algorithm b = make(p);
            pagmo::population pop(pagmo::problem(k.build()), 0u, static_cast<unsigned>(g.seed()));
            for (std::size_t i = 0; i < start.size(); ++i) pop.push_back(start.get_x()[i], start.get_f()[i]);
            pop = evolve(b, pop);
            compare(c, want.pops[1], pop, what);
            if (p.verbosity) c.require(log_of(b).size() == want.logs[1].size(), "log: " + what, "another number of log lines");
        }
    }
    if (variation >= 3 && variation <= 5) {
        Algorithm b = make(q);
        for (unsigned r = 0; r < rounds; ++r) {
            compare(c, want.pops[r + 1], evolve(b, want.pops[r]), what);
            if (logs) compare(c, want.logs[r + 1], log_of(b), what);
        }
    }
    bool moved = false;
    for (std::size_t i = 0; i < start.size(); ++i) moved = moved || !same(start.get_x()[i], want.pops[rounds].get_x()[i]);
    c.label(std::string(kind_name(p.kind)) + ": " + what);
    c.nontrivial(moved);
}
// What an algorithm says of itself is what it was given.
static void says(Gen &g, Case &c)
{
    const Plan p = plan(g);
    c.note(p);
    const Algorithm a = p.build();
    const auto t = info(a);
    const auto says = [&](const std::string &label, const std::string &value) {
        c.require((t + "\n").find(label + value + "\n") != std::string::npos, "described", "the description ", t, " does not say ", label, value);
    };
    const auto text = [](auto v) {
        std::ostringstream ss;
        ss << v;
        return ss.str();
    };
    says("Verbosity: ", text(p.verbosity));
    if (p.kind == GD) {
        says("Maximum number of iterations: ", text(p.gen));
        says("Initial learning rate: ", text(p.lr));
        says("Minimum learning rate: ", text(p.lr_min));
    } else {
        says(p.multi() ? "umber of generations: " : "Maximum number of generations: ", text(p.gen));
        says("umber of active mutations: ", text(p.max_mut));
        says("Exit condition of the final loss (ftol): ", text(p.ftol));
        says("Seed: ", text(p.seed));
        if (!p.memetic()) {
            const bool yes = t.find("Learn constants?: true") != std::string::npos, no = t.find("Learn constants?: false") != std::string::npos;
            c.require(yes == p.learn && no == !p.learn, "described", "the description ", t, " does not say whether constants are learned");
            says("Using bfe: ", p.bfe ? "yes" : "no");
        }
    }
    std::visit(
        [&](auto &x) {
            c.require(x.get_verbosity() == p.verbosity, "verbosity", "the verbosity is ", x.get_verbosity());
            c.require(x.get_log().empty(), "log", "there is a log already");
            if constexpr (!std::is_same<std::decay_t<decltype(x)>, dcgp::gd4cgp>::value) c.require(x.get_seed() == p.seed, "seed", "the seed is ", x.get_seed());
        },
        a);
    c.nontrivial(p.gen > 0);
}

int main(int argc, char **argv)
{
    watch();
    pbt::Property p;
    p.id = "L02";
    p.rule = "random algorithms, problems, populations and histories of evolutions, repeated by a twin, a copy, an archive, another verbosity or evaluation scheme, or with the seed set again; "
             "populations and logs compared bit by bit; non-trivial: the population changed; counted distinct by choice sequence";
    p.subs = {{"twins", 40000, 600000, twins}, {"says", 2000, 20000, says}};
    p.assumptions = {"with the stand-ins for AuDi and SymEngine", "no parallel evaluation of the data (sums in any order)", "not-finite log entries are not sent through text archives (Boost cannot read them back)"};
    return pbt::run(argc, argv, p);
}
