// L03: evolution stops when told to and logs what happened.
// FLAGS: -O1 -g0 -D_GLIBCXX_ASSERTIONS -fsanitize=undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include <evolve.hpp>
PAGMO_S11N_PROBLEM_EXPORT(cgp::Recorder)
PAGMO_S11N_BFE_EXPORT(cgp::one_by_one)

using namespace cgp;

static const std::vector<std::string> &kernels(Gen &g)
{
    static const std::vector<std::string> plain = {"sum", "diff", "mul", "div"}, more = {"sum", "diff", "mul", "sin", "exp", "gaussian", "inv_sum", "tanh"};
    return g.chance(1, 2) ? plain : g.chance(1, 2) ? more : ev::catalogue();
}
// 0, every, 2 every, ... and last
static std::vector<unsigned> lines_at(unsigned every, unsigned last)
{
    std::vector<unsigned> r;
    for (unsigned t = 0; t < last; t += every) r.push_back(t);
    r.push_back(last);
    return r;
}
static std::vector<unsigned> gens(const std::vector<Line> &log)
{
    std::vector<unsigned> r;
    for (auto &l : log) r.push_back(l.gen);
    return r;
}
// The numbers of a log line are written as they are, in six figures.
static bool written(const Plan &p, const Line &l, const std::string &line)
{
    std::istringstream ss(line);
    const auto number = [&](double want) {
        std::string t;
        if (!(ss >> t)) return false;
        char *end = nullptr;
        const double v = std::strtod(t.c_str(), &end);
        return end != t.c_str() && *end == 0 && (same(v, want) || std::abs(v - want) <= 1e-5 * std::abs(want));
    };
    if (!number(l.gen) || !number(static_cast<double>(l.fevals))) return false;
    if (p.kind == GD) return number(static_cast<double>(l.gevals)) && number(l.norm) && number(l.lr) && number(l.best);
    if (!number(l.best)) return false;
    if (p.multi()) return number(static_cast<double>(l.front)) && number(l.complexity);
    return line.find(l.formula.substr(0, std::min<std::size_t>(l.formula.size(), 10))) != std::string::npos;
}
static void check_shape(Case &c, const Plan &p, const std::vector<Line> &log, unsigned last, const std::string &text)
{
    if (p.verbosity == 0) {
        c.require(log.empty(), "not asked", "there are ", log.size(), " log lines without verbosity");
        c.require(text.empty(), "output", "without verbosity this is written: ", text);
        return;
    }
    c.require(gens(log) == lines_at(p.verbosity, last), "lines", "there are log lines for ", gens(log), ", expected ", lines_at(p.verbosity, last));
    c.require(static_cast<std::size_t>(std::count(text.begin(), text.end(), '\n')) >= log.size(), "screen", "there are ", log.size(), " log lines, this is written: ", text);
    std::istringstream ss(text);
    std::string line;
    bool titles = false;
    for (auto &l : log) {
        bool found = false;
        while (!found && std::getline(ss, line)) {
            found = written(p, l, line);
            titles = titles || line.find("evals:") != std::string::npos;
        }
        c.require(found, "screen", "log line ", l, " is not written in its place: ", text);
        c.require(titles, "titles", "no titles are written above the first line: ", text);
    }
    bool reason = false;
    while (std::getline(ss, line)) reason = reason || line.find_first_not_of(" \t") != std::string::npos;
    c.require(reason, "reason", "it is not written why the evolution ended: ", text);
}
static void generations(Gen &g, Case &c)
{
    Plan p = plan(g);
    p.kind = static_cast<int>(g.raw(3));
    const Config k = config_for(g, p, kernels(g));
    const auto u = k.build();
    Recorder rec{u};
    auto pop = populate(g, k, rec, 8);
    // a target within reach
    if (g.flip()) {
        const double b = best_of(pop.get_f());
        if (b > 0 && std::isfinite(b)) p.ftol = b * g.pick(std::vector<double>{1.0000001, 1, 0.9999, 0.9, 0.7, 0.5, 0.2, 0.05});
    }
    auto algo = p.build();
    c.note(p, " on ", k, " population ", show(pop));
    bool early = false, several = false;
    for (unsigned round = g.u(1, 2); round > 0; --round) {
        bool nan = false;
        for (auto &f : pop.get_f()) nan = nan || std::isnan(f[0]);
        rec.record->events.clear();
        const unsigned calls = one_by_one::calls;
        const pagmo::population before(pop);
        std::string text;
        const std::vector<Line> old = log_of(algo);
        {
            Capture cap;
            pop = evolve(algo, before);
            text = cap.text.str();
        }
        c.trace(" became ", show(pop));
        const auto tried = rec.record->fitnesses();
        const std::size_t NP = before.size();
        const auto log = log_of(algo);
        c.require(tried.size() % NP == 0 && tried.size() <= NP * p.gen, "evaluations", tried.size(), " evaluations for at most ", p.gen, " generations of ", NP);
        const unsigned run = static_cast<unsigned>(tried.size() / NP);
        c.require(pop.get_problem().get_fevals() - before.get_problem().get_fevals() == tried.size(), "counted", tried.size(), " evaluations were made, ",
                  pop.get_problem().get_fevals() - before.get_problem().get_fevals(), " are counted");
        if (p.bfe == 1 && !p.memetic()) c.require(one_by_one::calls - calls == run, "batches", "in ", run, " generations the batch evaluator was called ", one_by_one::calls - calls, " times");
        if (p.gen == 0) {
            bool unchanged = before.size() == pop.size();
            for (std::size_t i = 0; unchanged && i < pop.size(); ++i) unchanged = same(before.get_x()[i], pop.get_x()[i]) && same(before.get_f()[i], pop.get_f()[i]);
            c.require(unchanged, "zero generations", "the population is changed in zero generations");
            c.require(p.verbosity > 0 || text.empty(), "output", "without verbosity this is written: ", text);
            return;
        }
        if (nan) return; // pagmo may call best an individual whose fitness is not a number
        // the best after each generation
        std::vector<double> B{best_of(before.get_f())};
        bool finite = std::isfinite(B[0]);
        for (unsigned t = 0; t < run; ++t) {
            double b = B.back();
            for (std::size_t i = t * NP; i < (t + 1) * NP; ++i) {
                finite = finite && std::isfinite(tried[i].f[0]);
                if (less(tried[i].f[0], b)) b = tried[i].f[0];
            }
            B.push_back(b);
        }
        // several objectives and few individuals: the best may be crowded out
        const bool exact = !p.multi() || (NP >= 4 && finite);
        if (exact) {
            for (unsigned t = 1; t < run; ++t)
                c.require(!(B[t] < p.ftol), "not stopped", "after generation ", t, " the best is ", B[t], " and the evolution continued");
            c.require(run == p.gen || B[run] < p.ftol, "stopped", "the evolution stopped after ", run, " generations with best ", B[run]);
        } else if (run < p.gen) {
            c.require(best_of(pop.get_f()) < p.ftol, "stopped", "the evolution stopped after ", run, " generations with best ", best_of(pop.get_f()));
        }
        early = early || (run < p.gen && run > 0);
        check_shape(c, p, log, run, text);
        if (exact && p.verbosity) {
            if (run < p.gen) c.require(text.find("ftol") != std::string::npos, "reason", "the target was reached and this is written: ", text);
            if (!(B[run] < p.ftol)) c.require(text.find("ftol") == std::string::npos, "reason", "the target was not reached and this is written: ", text);
        }
        for (std::size_t i = 0; i < log.size(); ++i) {
            const Line &l = log[i];
            c.require(l.fevals == l.gen * NP, "fevals", "line ", l, " of the log, there are ", NP, " evaluations in a generation");
            if (exact) c.require(same(l.best, B[l.gen]), "best", "line ", l, " of the log, the best then was ", B[l.gen]);
            if (!p.multi()) {
                bool found = false;
                auto is = [&](const Vector &x, const Vector &f) {
                    if (!same(f[0], l.best)) return false;
                    for (unsigned j = 0; j < k.s.n_eph; ++j)
                        if (j >= l.constants.size() || !same(l.constants[j], x[j])) return false;
                    return l.constants.size() == k.s.n_eph && u.prettier(x) == l.formula;
                };
                for (std::size_t j = 0; j < NP && !found; ++j) found = is(before.get_x()[j], before.get_f()[j]);
                for (std::size_t j = 0; j < l.gen * NP && !found; ++j) found = is(tried[j].x, tried[j].f);
                c.require(found, "model", "line ", l, " of the log: no individual until then has this fitness, constants and formula");
            } else if (l.gen == 0 || i + 1 == log.size()) {
                const auto f = l.gen == 0 ? before.get_f() : pop.get_f();
                bool all = true;
                for (auto &v : f) all = all && !std::isnan(v[0]);
                if (!all) continue;
                const auto r = ranks(f);
                double compl_ = 0;
                unsigned n = 0;
                for (std::size_t j = 0; j < f.size(); ++j) {
                    if (r[j]) continue;
                    ++n;
                    compl_ = std::max(compl_, f[j][1]);
                }
                c.require(l.front == n && l.complexity == compl_ && same(l.best, best_of(f)), "front", "line ", l, " of the log, the front has ", n, " individuals, of complexity up to ", compl_,
                          ", the best loss is ", best_of(f));
            }
        }
        several = several || log.size() > 2;
    }
    c.label(kind_name(p.kind));
    if (early) c.label(std::string("early: ") + kind_name(p.kind) + (p.verbosity ? "" : ", quiet"));
    c.nontrivial(early || several);
}
static void descent(Gen &g, Case &c)
{
    Plan p = plan(g);
    p.kind = GD;
    p.gen = g.u(0, 12);
    const Config k = config_for(g, p, kernels(g));
    Recorder rec{k.build()};
    auto pop = populate(g, k, rec, 3);
    c.note(p, " on ", k, " population ", show(pop));
    const auto algo = p.build();
    bool several = false;
    // the population may have a past
    for (unsigned round = g.chance(1, 3) ? g.u(2, 3) : 1; round > 0; --round) {
    for (auto &f : pop.get_f())
        if (std::isnan(f[0])) return;
    if (k.s.n_eph && g.chance(1, 4))
        for (unsigned extra = g.u(1, 3); extra > 0; --extra) {
            const auto &x = pop.get_x()[g.raw(pop.size() - 1)];
            switch (g.raw(2)) {
                case 0: pop.get_problem().fitness(x); break;
                case 1: pop.get_problem().gradient(x); break;
                default: pop.get_problem().hessians(x);
            }
        }
    rec.record->events.clear();
    pagmo::population after(pop);
    std::string text;
    {
        Capture cap;
        after = evolve(algo, pop);
        text = cap.text.str();
    }
    const auto tried = rec.record->fitnesses();
    const auto log = log_of(algo);
    const unsigned gevals = static_cast<unsigned>(rec.record->count('G'));
    const auto &prob = after.get_problem();
    c.trace(" became ", show(after));
    c.require(prob.get_fevals() - pop.get_problem().get_fevals() == tried.size() && prob.get_gevals() - pop.get_problem().get_gevals() == gevals, "counted", tried.size(), " fitnesses and ", gevals,
              " gradients were computed, ", prob.get_fevals() - pop.get_problem().get_fevals(), " and ", prob.get_gevals() - pop.get_problem().get_gevals(), " are counted");
    c.require(gevals <= p.gen && (gevals == tried.size() || gevals == tried.size() + 1), "evaluations", gevals, " gradients and ", tried.size(), " fitnesses for ", p.gen, " iterations");
    Vector B{best_of(pop.get_f())};
    if (!std::isfinite(B[0]) || p.gen == 0) {
        c.require(tried.empty() && log.empty(), "nothing to do", "there was nothing to do and something was done");
        c.require(p.verbosity > 0 || text.empty(), "output", "without verbosity this is written: ", text);
        return;
    }
    std::vector<Vector> base{pop.get_x()[pop.best_idx()]};
    for (auto &e : tried) {
        const bool better = less(e.f[0], B.back());
        base.push_back(better ? e.x : base.back());
        B.push_back(better ? e.f[0] : B.back());
    }
    Vector norms{0};
    for (auto &e : rec.record->events)
        if (e.what == 'G') norms.push_back(std::sqrt(std::inner_product(e.f.begin(), e.f.end(), e.f.begin(), 0.)));
    check_shape(c, p, log, gevals, text);
    // the rate after each step, and why it ended (the factors are those of the documented log)
    std::vector<double> rate{p.lr};
    for (std::size_t j = 0; j < tried.size(); ++j) {
        c.require(j == 0 || rate.back() >= p.lr_min, "rate too small", "after ", j, " steps the rate is ", rate.back(), ", below ", p.lr_min, ", and the descent continued");
        c.require(norms[j + 1] >= 1e-13 && std::isfinite(norms[j + 1]), "gradient vanished", "gradient ", j, " has norm ", norms[j + 1], " and the descent continued");
        rate.push_back(less(tried[j].f[0], B[j]) ? rate.back() * 1.5 : rate.back() / 4);
    }
    if (gevals > tried.size())
        c.require(!(norms.back() >= 1e-13 && std::isfinite(norms.back())), "ended", "the descent ended with a gradient of norm ", norms.back());
    else if (gevals < p.gen)
        c.require(rate.back() < p.lr_min, "ended", "the descent ended after ", gevals, " of ", p.gen, " iterations with rate ", rate.back(), ", the least is ", p.lr_min);
    for (std::size_t i = 0; i < log.size(); ++i) {
        const Line &l = log[i];
        const bool last = i + 1 == log.size();
        c.require(l.gevals == l.gen && l.fevals == (last ? tried.size() : l.gen), "evaluations", "line ", l, " of the log does not count the evaluations, ", tried.size(), " fitnesses at the end");
        c.require(same(l.best, B[l.fevals]), "best", "line ", l, " of the log, the best then was ", B[l.fevals]);
        c.require(same(l.norm, norms[l.gevals]) || std::abs(l.norm - norms[l.gevals]) <= 1e-12 * std::abs(l.norm), "norm", "line ", l, " of the log, the last gradient had norm ", norms[l.gevals]);
        c.require(std::abs(l.lr - rate[l.fevals]) <= 1e-12 * l.lr, "rate", "line ", l, " of the log, the rate is ", rate[l.fevals]);
        if (l.fevals < tried.size()) {
            double step = 0, size = 0;
            for (unsigned j = 0; j < k.s.n_eph; ++j) {
                step += std::pow(tried[l.fevals].x[j] - base[l.fevals][j], 2);
                size = std::max(size, std::abs(base[l.fevals][j]));
            }
            step = std::sqrt(step);
            c.require(std::abs(step - l.lr) <= 1e-6 * (l.lr + size), "rate", "line ", l, " of the log, the next step is ", step, " long");
        }
    }
    several = several || log.size() > 2;
    pop = after;
    }
    c.nontrivial(several);
}

int main(int argc, char **argv)
{
    watch();
    pbt::Property p;
    p.id = "L03";
    p.rule = "random algorithms, verbosities, targets, problems and populations, the problem recording every evaluation; logs, output and stopping compared with the record; "
             "non-trivial: stopped early or more than two log lines; counted distinct by choice sequence";
    p.subs = {{"generations", 60000, 900000, generations}, {"descent", 30000, 400000, descent}};
    p.assumptions = {"with the stand-ins for AuDi and SymEngine", "whether a target that the initial population reaches is noticed before the first generation or after it is left open",
                     "logs of runs starting from an individual whose fitness is not a number are not looked at", "fronts are looked at in the first and the last line"};
    return pbt::run(argc, argv, p);
}
