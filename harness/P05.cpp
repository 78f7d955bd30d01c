// P05: copies of a symbolic regression work side by side.
// FLAGS: -O1 -g1 -fsanitize=thread
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <atomic>
#include <pagmo/problem.hpp>
#include <problem.hpp>
#include <thread>

using namespace cgp;
using dcgp::symbolic_regression;

static void put(std::ostream &os, const Vector &v)
{
    for (double x : v) {
        if (std::isnan(x))
            os << "nan ";
        else
            os << x << ' ';
    }
    os << '|';
}
static const unsigned kinds = 8;
// One question, and its answer as text.
static std::string ask(const symbolic_regression &u, const Config &k, unsigned what, const Vector &x)
{
    std::ostringstream ss;
    ss.precision(17);
    switch (what) {
        case 0:
            put(ss, u.fitness(x));
            break;
        case 1:
            put(ss, u.gradient(x));
            break;
        case 2:
            for (auto &h : u.hessians(x)) put(ss, h);
            break;
        case 3:
            for (auto &y : u.predict(k.X, x)) put(ss, y);
            break;
        case 4: {
            const auto t = u.pretty(x);
            ss << t.substr(0, 2000) << t.size();
            break;
        }
        case 5: {
            const auto t = u.prettier(x);
            ss << t.substr(0, 2000) << t.size();
            break;
        }
        case 6: {
            const auto b = u.get_bounds();
            put(ss, b.first);
            put(ss, b.second);
            for (auto &s : u.gradient_sparsity()) ss << s.first << ',' << s.second << ' ';
            ss << u.get_nobj() << ' ' << u.get_nix() << ' ' << u.get_extra_info();
            break;
        }
        default: { // a candidate that is rejected
            auto bad = x;
            bad.push_back(0);
            try {
                u.fitness(bad);
                ss << "accepted";
            } catch (const std::exception &) {
                ss << "rejected";
            }
        }
    }
    return ss.str();
}
static void side_by_side(Gen &g, Case &c)
{
    ProblemLimits L;
    L.shape = Limits{3, 3, 3, 2, 5, 3, 5};
    L.points = 5;
    Config k = config(g, g.flip() ? ev::catalogue() : std::vector<std::string>{"sum", "diff", "mul", "sin"}, L);
    k.parallel = 0;
    std::vector<Vector> xs;
    for (unsigned i = g.u(1, 3); i > 0; --i) xs.push_back(candidate(g, k));
    c.note(k, " candidates ", xs);
    symbolic_regression u = k.build();
    if (g.chance(1, 4)) {
        Correction pc;
        pc.kind = static_cast<int>(g.u(1, 3));
        pc.a = 2;
        c.trace(" corrected ", pc.kind);
        u.set_phenotype_correction([pc](const std::vector<double> &x, std::function<std::vector<double>(const std::vector<double> &)> f) { return pc.apply(f(x), x); },
                                   [pc](const std::vector<audi::gdual_v> &x, std::function<std::vector<audi::gdual_v>(const std::vector<audi::gdual_v> &)> f) { return pc.apply(f(x), x); });
    }
    for (unsigned i = g.u(0, 2); i > 0; --i) ask(u, k, g.u(0, kinds - 1), xs[g.raw(xs.size() - 1)]); // a past
    const unsigned n = g.u(2, 5);
    struct Job {
        std::vector<unsigned> ops, which, delay;
        int how = 0;
    };
    std::vector<Job> jobs(n);
    unsigned total = 0;
    for (auto &j : jobs) {
        for (unsigned i = g.small(1, 8); i > 0; --i) {
            j.ops.push_back(g.u(0, kinds - 1));
            j.which.push_back(static_cast<unsigned>(g.raw(xs.size() - 1)));
            j.delay.push_back(g.chance(1, 3) ? g.u(0, 1500) : 0);
            ++total;
        }
        j.how = static_cast<int>(g.raw(3));
        c.trace(" thread: ", j.ops, " of ", j.which, " how ", j.how);
    }
    const symbolic_regression alone(u);
    std::vector<std::vector<std::string>> expect(n), got(n);
    const auto sequential = [&]() {
        for (unsigned t = 0; t < n; ++t) {
            const symbolic_regression mine(alone);
            for (std::size_t i = 0; i < jobs[t].ops.size(); ++i) expect[t].push_back(ask(mine, k, jobs[t].ops[i], xs[jobs[t].which[i]]));
        }
    };
    const bool before = g.flip();
    if (before) sequential();
    const pagmo::problem p(u);
    std::vector<symbolic_regression> ready(n, u);
    std::vector<pagmo::problem> ready_p(n, p);
    std::atomic<unsigned> waiting{0};
    std::vector<std::thread> th;
    for (unsigned t = 0; t < n; ++t) {
        th.emplace_back([&, t]() {
            waiting.fetch_add(1);
            while (waiting.load() < n) std::this_thread::yield();
            volatile unsigned z = 0;
            const auto work = [&](const symbolic_regression &mine) {
                for (std::size_t i = 0; i < jobs[t].ops.size(); ++i) {
                    for (unsigned d = jobs[t].delay[i]; d > 0; --d) z = z + 1;
                    try {
                        got[t].push_back(ask(mine, k, jobs[t].ops[i], xs[jobs[t].which[i]]));
                    } catch (const std::exception &e) {
                        got[t].push_back(std::string("an exception: ") + e.what());
                    }
                }
            };
            switch (jobs[t].how) {
                case 0: // copied before
                    work(ready[t]);
                    break;
                case 1: // copied now, by several threads at once
                    work(symbolic_regression(u));
                    break;
                case 2: { // in a problem, copied before
                    work(*ready_p[t].extract<symbolic_regression>());
                    break;
                }
                default: { // in a problem, copied now
                    const pagmo::problem q(p);
                    work(*q.extract<symbolic_regression>());
                }
            }
        });
    }
    for (auto &x : th) x.join();
    if (!before) sequential();
    for (unsigned t = 0; t < n; ++t)
        for (std::size_t i = 0; i < jobs[t].ops.size(); ++i)
            c.require(got[t][i] == expect[t][i], "value", "thread ", t, ", question ", jobs[t].ops[i], " about ", xs[jobs[t].which[i]], " is answered ", got[t][i].substr(0, 300), ", alone ",
                      expect[t][i].substr(0, 300));
    // and the original is as it was
    for (std::size_t i = 0; i < jobs[0].ops.size(); ++i)
        c.require(ask(u, k, jobs[0].ops[i], xs[jobs[0].which[i]]) == expect[0][i], "original", "the original answers question ", jobs[0].ops[i], " otherwise");
    c.label(before ? "before" : "after");
    c.nontrivial(total > 4);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "P05";
    p.rule = "two to five threads, each with its own copy of one symbolic regression (copied before, or at the same time as others copy), asked random questions (fitness, gradient, Hessians, "
             "predictions, texts, bounds, rejected candidates), each answer compared with that of a copy used alone, under ThreadSanitizer; non-trivial: more than four questions; counted "
             "distinct by choice sequence";
    p.subs = {{"side_by_side", 2500, 50000, side_by_side, true}};
    p.assumptions = {"interleavings are those the operating system gives under random delays; ThreadSanitizer reports unordered conflicting accesses",
                     "with the stand-ins for AuDi and SymEngine; losses are summed by the calling thread (parallel 0)"};
    p.case_cpu_s = 60;
    return pbt::run(argc, argv, p);
}
