// L06: evolutions run side by side.
// FLAGS: -O1 -g1 -fsanitize=thread
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include <evolve.hpp>
#include <pagmo/algorithm.hpp>
#include <thread>
PAGMO_S11N_BFE_EXPORT(cgp::one_by_one)
PAGMO_S11N_PROBLEM_EXPORT(cgp::Recorder)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::es4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::moes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::mes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::momes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::gd4cgp)

using namespace cgp;

static const std::vector<std::string> &kernels(Gen &g)
{
    static const std::vector<std::string> plain = {"sum", "diff", "mul", "div"}, more = {"sum", "diff", "mul", "sin", "exp", "gaussian", "inv_sum", "tanh"};
    return g.chance(1, 2) ? plain : g.chance(1, 2) ? more : ev::catalogue();
}
struct Result {
    std::vector<std::string> pops;
    std::string info, error;
};
static std::string nan_free(std::string t)
{
    std::size_t p;
    while ((p = t.find("-nan")) != std::string::npos) t.erase(p, 1);
    return t;
}
static Result run(Algorithm &a, pagmo::population pop, unsigned rounds)
{
    Result r;
    for (unsigned i = 0; i < rounds; ++i) {
        pop = evolve(a, pop);
        r.pops.push_back(nan_free(show(pop)));
    }
    r.info = std::visit([](auto &x) { return x.get_name() + x.get_extra_info(); }, a);
    return r;
}
static Result wrapped(const pagmo::algorithm &a, pagmo::population pop, unsigned rounds)
{
    Result r;
    for (unsigned i = 0; i < rounds; ++i) {
        pop = a.evolve(pop);
        r.pops.push_back(nan_free(show(pop)));
    }
    r.info = a.get_name() + a.get_extra_info();
    return r;
}
static void side_by_side(Gen &g, Case &c)
{
    const unsigned n = g.u(2, 4);
    struct Job {
        Plan p;
        std::size_t of = 0; // which problem and population
        Algorithm a = dcgp::gd4cgp();
        int how = 0;
        unsigned rounds = 1, delay = 0;
    };
    const bool alike = g.flip(); // the same work everywhere: one algorithm, one population
    std::vector<Job> jobs(n);
    std::vector<Config> configs;
    std::vector<pagmo::population> starts;
    PlanLimits PL;
    PL.gen = 4;
    for (unsigned t = 0; t < n; ++t) {
        Job &j = jobs[t];
        if (t == 0 || !alike) {
            j.p = plan(g, PL);
            j.p.verbosity = 0; // the standard output is one for all
            j.p.bfe = 0;       // pagmo checks what it gives to a batch evaluator with TBB, which ThreadSanitizer cannot follow
            configs.push_back(config_for(g, j.p, kernels(g)));
            starts.emplace_back(pagmo::problem(configs.back().build()), 0u, static_cast<unsigned>(g.seed()));
            for (unsigned i = g.u(2, 5); i > 0; --i) starts.back().push_back(candidate(g, configs.back()));
            j.a = j.p.build();
            if (auto gd = std::get_if<dcgp::gd4cgp>(&j.a)) gd->set_random_sr_seed(static_cast<unsigned>(g.seed()));
        } else {
            j = jobs[0];
        }
        j.of = starts.size() - 1;
        j.rounds = g.u(1, 3);
        j.delay = g.chance(1, 2) ? g.u(0, 3000) : 0;
        j.how = static_cast<int>(g.raw(2));
        c.note(j.p, " on ", configs[j.of], " population ", show(starts[j.of]), " rounds ", j.rounds, " how ", j.how, "; ");
    }
    std::vector<Result> expect(n), got(n);
    // what one thread gets
    std::vector<Algorithm> fresh;
    for (auto &j : jobs) fresh.push_back(j.a);
    const std::vector<pagmo::population> untouched = starts;
    const auto sequential = [&]() {
        for (unsigned t = 0; t < n; ++t) {
            Algorithm a = fresh[t];
            expect[t] = jobs[t].how == 2 ? wrapped(std::visit([](auto &x) { return pagmo::algorithm(x); }, a), untouched[jobs[t].of], jobs[t].rounds)
                                         : run(a, untouched[jobs[t].of], jobs[t].rounds);
        }
    };
    const bool before = g.flip();
    if (before) sequential();
    std::atomic<unsigned> waiting{0};
    std::vector<std::thread> th;
    std::vector<pagmo::population> ready;
    for (auto &j : jobs) ready.push_back(starts[j.of]);
    for (unsigned t = 0; t < n; ++t) {
        th.emplace_back([&, t]() {
            Job &j = jobs[t];
            waiting.fetch_add(1);
            while (waiting.load() < n) std::this_thread::yield();
            volatile unsigned z = 0;
            for (unsigned d = j.delay; d > 0; --d) z = z + 1;
            try {
                switch (j.how) {
                    case 0: // its own algorithm, a population copied before
                        got[t] = run(j.a, ready[t], j.rounds);
                        break;
                    case 1: { // copies made now, by several threads at once
                        Algorithm a = fresh[t];
                        got[t] = run(a, starts[j.of], j.rounds);
                        break;
                    }
                    default: // as pagmo runs it
                        got[t] = wrapped(std::visit([](const auto &x) { return pagmo::algorithm(x); }, const_cast<const Algorithm &>(fresh[t])), starts[j.of], j.rounds);
                }
            } catch (const std::exception &e) {
                got[t].error = e.what();
            }
        });
    }
    for (auto &x : th) x.join();
    if (!before) sequential();
    bool moved = false;
    for (unsigned t = 0; t < n; ++t) {
        c.require(got[t].error.empty(), "exception", "evolution ", t, " ends with the exception ", got[t].error);
        for (unsigned i = 0; i < jobs[t].rounds; ++i)
            c.require(got[t].pops[i] == expect[t].pops[i], "population", "evolution ", t, " gives the population ", got[t].pops[i], " beside others and ", expect[t].pops[i], " alone");
        c.require(got[t].info == expect[t].info, "info", "evolution ", t, ": the algorithm says ", got[t].info, " and, alone, ", expect[t].info);
        moved = moved || got[t].pops.back() != nan_free(show(starts[jobs[t].of]));
    }
    for (std::size_t i = 0; i < starts.size(); ++i)
        c.require(nan_free(show(starts[i])) == nan_free(show(untouched[i])), "start", "the population others copied is changed");
    c.label(alike ? "alike" : "different");
    c.nontrivial(moved);
}

int main(int argc, char **argv)
{
    watch();
    pbt::Property p;
    p.id = "L06";
    p.rule = "two to four threads, each evolving its own copy of a population with its own copy of one of the five algorithms (the same for all, or different ones; copied before, at the same "
             "time, or wrapped in pagmo::algorithm), each population compared with that of the same evolution alone, under ThreadSanitizer; non-trivial: some evolution changes its "
             "population; counted distinct by choice sequence";
    p.subs = {{"side_by_side", 1200, 24000, side_by_side, true}};
    p.assumptions = {"interleavings are those the operating system gives under random delays; ThreadSanitizer reports unordered conflicting accesses in dcgp's headers (pagmo's library is not "
                     "instrumented)",
                     "silent evolutions, as the standard output is shared, and no batch evaluators: pagmo uses TBB around them, which is not built for ThreadSanitizer"};
    p.case_cpu_s = 120;
    return pbt::run(argc, argv, p);
}
