// L07: evolution draws its mutations evenly.
// FLAGS: -O1 -g0 -D_GLIBCXX_ASSERTIONS
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include <boost/math/special_functions/erf.hpp>

#include <evolve.hpp>
#include <stat.hpp>
PAGMO_S11N_PROBLEM_EXPORT(cgp::Recorder)
PAGMO_S11N_BFE_EXPORT(cgp::one_by_one)

using namespace cgp;

static std::string show(const std::map<unsigned, double> &m)
{
    std::ostringstream ss;
    for (auto &[k, v] : m) ss << k << ": " << v << ", ";
    return ss.str();
}
// One generation, again and again: what it tries.
static void proposals(Gen &g, Case &c)
{
    static const std::vector<std::string> plain = {"sum", "diff", "mul"}, more = {"sum", "mul", "sin", "gaussian"};
    Plan p = plan(g);
    p.kind = static_cast<int>(g.raw(3));
    p.gen = 1;
    p.ftol = 0;
    p.verbosity = 0;
    p.max_mut = g.u(1, 6);
    p.learn = g.chance(3, 4);
    Config k = config(g, g.flip() ? plain : more, {{2, 3, 2, 2, 4, 2, 3}, 2, 1});
    k.parallel = 0;
    k.ce = false;
    k.multi = p.multi();
    const auto u = k.build();
    Recorder rec{u};
    const unsigned NP = g.u(8, 24);
    pagmo::population pop(pagmo::problem(rec), 0u, 1u);
    for (unsigned i = 0; i < NP; ++i) pop.push_back(candidate(g, k));
    const bool again = g.flip(); // one algorithm, again and again
    c.note(kind_name(p.kind), " of at most ", p.max_mut, " mutations, ", NP, " individuals, ", again ? "seed " : "seeds from ", p.seed, p.bfe && !p.memetic() ? ", with a batch evaluator" : "",
           p.learn && !p.memetic() ? ", learning" : "", " on ", k);
    std::size_t best = 0, bests = 0;
    for (std::size_t i = 0; i < NP; ++i) {
        if (!std::isfinite(pop.get_f()[i][0])) return;
        if (pop.get_f()[i][0] < pop.get_f()[best][0]) best = i;
    }
    for (auto &f : pop.get_f()) bests += f[0] == pop.get_f()[best][0];
    if (!p.multi() && bests != 1) return c.label("many best"); // which one is the parent?
    Chrom lb, ub;
    k.s.bounds(lb, ub);
    const unsigned eph = k.s.n_eph, genes = k.s.size();
    std::mt19937 rng(static_cast<unsigned>(g.raw(0xffffffffu)));
    auto upto = [&](unsigned n) { return static_cast<unsigned>(((static_cast<unsigned long long>(rng()) << 32) | rng()) % n); };
    auto distance = [&](const Vector &x, const Vector &y) {
        unsigned d = 0;
        for (std::size_t i = eph; i < x.size(); ++i) d += x[i] != y[i];
        return d;
    };
    std::map<unsigned, double> got, want, got1, want1;
    std::vector<Vector> steps, redrawn(eph);
    std::vector<std::pair<double, double>> both; // two constants redrawn in one candidate
    const unsigned runs = 3000 / NP;
    unsigned tried = 0;
    const unsigned gene = g.u(0, genes - 1);
    Algorithm algo = p.build();
    for (unsigned r = 0; r < runs; ++r) {
        if (!again) {
            p.seed += 1;
            algo = p.build();
        }
        rec.record->events.clear();
        {
            Capture quiet;
            evolve(algo, pop);
        }
        const auto F = rec.record->fitnesses();
        if (F.size() != NP) return; // nothing to do
        for (std::size_t i = 0; i < NP; ++i) {
            const Vector &x = pop.get_x()[p.multi() ? i : best], &y = F[i].x;
            ++tried;
            ++got[distance(x, y)];
            ++got1[x[eph + gene] != y[eph + gene]];
            Vector z = x;
            const unsigned n = p.kind == MOMES ? upto(p.max_mut + 1) : 1 + upto(p.max_mut);
            for (unsigned j = 0; j < n; ++j) {
                const unsigned q = upto(genes);
                if (lb[q] == ub[q]) continue;
                const unsigned v = lb[q] + upto(ub[q] - lb[q]);
                z[eph + q] = v < z[eph + q] ? v : v + 1;
            }
            ++want[distance(x, z)];
            ++want1[x[eph + gene] != z[eph + gene]];
            if (p.memetic() && eph > 1) {
                z = y;
                std::copy(x.begin(), x.begin() + eph, z.begin());
                const auto G = u.gradient(z);
                std::vector<double> now;
                for (unsigned j = 0; j < eph; ++j)
                    if (G[j] == 0 && y[j] != x[j]) {
                        redrawn[j].push_back(y[j]);
                        now.push_back(y[j]);
                    }
                for (std::size_t j = 1; j < now.size(); ++j) both.push_back({now[j - 1], now[j]});
            } else if (!p.memetic() && p.learn && eph) {
                steps.emplace_back();
                for (unsigned j = 0; j < eph; ++j) steps.back().push_back(y[j] - x[j]);
            }
        }
    }
    c.require(chi::alike(got, want) > chi::tiny, "number", "candidates differ from their parents in numbers of genes ", show(got), "instead of ", show(want));
    c.require(chi::alike(got1, want1) > chi::tiny, "gene", "gene ", gene, " is (0: kept, 1: changed) ", show(got1), "instead of ", show(want1));
    const auto together = [](const std::vector<std::pair<double, double>> &v) {
        double a = 0, b = 0, ab = 0;
        for (auto &[p, q] : v) a += p * p, b += q * q, ab += p * q;
        return v.size() < 50 ? 0. : std::abs(ab) / std::sqrt(a * b / static_cast<double>(v.size()));
    };
    if (!steps.empty()) {
        c.label("steps of constants");
        const double n = static_cast<double>(steps.size());
        double sq = 0;
        for (auto &s : steps)
            for (double d : s) sq += d * d;
        const double sd = std::sqrt(sq / (n * eph));
        c.require(sd > 0, "steps", "no constant is changed");
        for (unsigned j = 0; j < eph; ++j) {
            double sum = 0;
            std::vector<double> bin(10, 0.);
            std::vector<std::pair<double, double>> next, other;
            for (std::size_t i = 0; i < steps.size(); ++i) {
                const double d = steps[i][j];
                sum += d;
                ++bin[std::min<std::size_t>(9, static_cast<std::size_t>(5 * (1 + std::erf(d / sd / std::sqrt(2.)))))];
                if (i) next.push_back({steps[i - 1][j], d});
                if (j) other.push_back({steps[i][j - 1], d});
            }
            c.require(std::abs(sum) <= 7.5 * sd * std::sqrt(n), "centre", "the steps of constant ", j, " are ", sum / n, " on average, ", sd, " long");
            c.require(chi::even(bin) > chi::tiny, "normal", "the steps of constant ", j, " fall between the tenths of a normal distribution ", bin, " times");
            c.require(together(next) <= 7.5, "independent", "the steps of constant ", j, " depend on those of the candidate before");
            c.require(together(other) <= 7.5, "independent", "the steps of constants ", j - 1, " and ", j, " depend on each other");
        }
    }
    const auto bounds = u.get_bounds();
    for (unsigned j = 0; j < eph; ++j) {
        if (redrawn[j].size() < 300) continue;
        c.label("redrawn constants");
        std::vector<double> bin(10, 0.);
        for (double v : redrawn[j]) {
            c.require(v >= bounds.first[j] && v <= bounds.second[j], "redrawn", "constant ", j, " is redrawn as ", v);
            ++bin[std::min<std::size_t>(9, static_cast<std::size_t>(10 * (v - bounds.first[j]) / (bounds.second[j] - bounds.first[j])))];
        }
        c.require(chi::even(bin) > chi::tiny, "redrawn", "constant ", j, " is redrawn in the tenths of its range ", bin, " times");
    }
    c.require(together(both) <= 7.5, "independent", "constants redrawn together depend on each other");
    c.label(kind_name(p.kind));
    c.nontrivial(tried > 1000 && got.size() > 1);
}

int main(int argc, char **argv)
{
    watch();
    pbt::Property p;
    p.id = "L07";
    p.rule = "one generation of every strategy from a random population, some hundred times with other seeds or with the same algorithm: the numbers of genes changed in the 3000 candidates, how often one gene changes, and the "
             "changes of constants, are counted and compared with even draws made by the harness (chi-square), constants also among each other; non-trivial: more than a thousand candidates";
    p.subs = {{"proposals", 1500, 25000, proposals}};
    p.assumptions = {"a bias is reported if even choices show as much less than once in 1e13: smaller ones pass",
                     "the size of the gaussian steps is not judged (documented 0.1, 10 in the code)"};
    p.case_cpu_s = 120;
    return pbt::run(argc, argv, p);
}
