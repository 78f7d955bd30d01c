// L01: evolution never loses the best individual, and keeps the population legal.
// FLAGS: -O1 -g0 -D_GLIBCXX_ASSERTIONS -fsanitize=undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include <evolve.hpp>
PAGMO_S11N_PROBLEM_EXPORT(cgp::Recorder)
PAGMO_S11N_BFE_EXPORT(cgp::one_by_one)

using namespace cgp;

static bool contains(const std::vector<Vector> &v, const Vector &x)
{
    return std::find_if(v.begin(), v.end(), [&](auto &y) { return same(y, x); }) != v.end();
}
static const std::vector<std::string> &kernels(Gen &g)
{
    static const std::vector<std::string> plain = {"sum", "diff", "mul", "div"}, more = {"sum", "diff", "mul", "sin", "exp", "gaussian", "inv_sum", "tanh"};
    return g.chance(1, 2) ? plain : g.chance(1, 2) ? more : ev::catalogue();
}
static void evolutions(Gen &g, Case &c)
{
    Plan p = plan(g);
    if (g.chance(1, 3)) p.gen = 1;
    const Config k = config_for(g, p, kernels(g));
    const Shape &s = k.s;
    Recorder rec{k.build()};
    auto pop = populate(g, k, rec);
    c.note(p, " on ", k, " population ", show(pop));
    auto algo = p.build();
    std::string select = "best", replace = "best";
    unsigned moved = 0, changed = 0;
    if (p.kind == GD) {
        auto &a = std::get<dcgp::gd4cgp>(algo);
        if (g.flip()) {
            select = g.pick(std::vector<std::string>{"best", "worst", "random"});
            a.set_selection(select);
            a.set_random_sr_seed(static_cast<unsigned>(g.seed()));
        } else if (g.flip()) {
            a.set_selection(static_cast<pagmo::population::size_type>(g.raw(pop.size() - 1)));
            select = "index";
        }
        if (g.flip()) {
            replace = g.pick(std::vector<std::string>{"best", "worst"});
            a.set_replacement(replace);
        }
        c.trace(" select ", select, " replace ", replace);
    }
    Chrom lb, ub;
    s.bounds(lb, ub);
    for (unsigned round = g.u(1, 2); round > 0; --round) {
        rec.record->events.clear();
        const pagmo::population before(pop);
        {
            Capture quiet;
            pop = evolve(algo, before);
        }
        const auto tried = rec.record->fitnesses();
        c.trace(" became ", show(pop));
        c.require(pop.size() == before.size(), "size", "the population has ", pop.size(), " individuals, had ", before.size());
        std::vector<Vector> old_x = before.get_x(), new_x = pop.get_x(), old_f = before.get_f(), new_f = pop.get_f();
        for (std::size_t i = 0; i < pop.size(); ++i) {
            const Vector &x = new_x[i], &f = new_f[i];
            // a legal decision vector
            c.require(x.size() == s.n_eph + s.size() && f.size() == (p.multi() ? 2u : 1u), "dimension", "individual ", i, " is ", x, " -> ", f);
            for (unsigned j = 0; j < s.size(); ++j) {
                const double v = x[s.n_eph + j];
                c.require(v >= lb[j] && v <= ub[j] && v == std::floor(v), "gene", "gene ", j, " of individual ", i, " is ", v, ", not in [", lb[j], ", ", ub[j], "]");
            }
            // its fitness is the one stored
            const auto again = k.build().fitness(x);
            c.require(same(f[0], again[0]) || ev::matches(f[0], reference_loss(k, x)), "stored fitness", "individual ", i, " is stored with fitness ", f, ", has ", again);
            if (p.multi()) c.require(f[1] == again[1], "stored complexity", "individual ", i, " is stored with fitness ", f, ", has ", again);
            // it comes from somewhere
            bool known = contains(old_x, x);
            changed += !known;
            for (auto &e : tried) known = known || (same(e.x, x) && same(e.f, f));
            c.require(known, "unknown", "individual ", i, ", ", x, " -> ", f, ", was neither in the population nor evaluated");
        }
        if (!p.multi()) {
            if (p.kind == GD && (select != "best" || replace != "best")) {
                // one individual is replaced by an improvement of one individual
                std::vector<std::size_t> differ;
                for (std::size_t i = 0; i < pop.size(); ++i)
                    if (!same(old_x[i], new_x[i]) || !same(old_f[i], new_f[i])) differ.push_back(i);
                c.require(differ.size() <= 1, "replaced", differ.size(), " individuals were replaced");
                for (auto i : differ) {
                    bool fine = false;
                    for (std::size_t j = 0; j < pop.size(); ++j)
                        fine = fine || (!less(old_f[j][0], new_f[i][0]) && std::equal(new_x[i].begin() + s.n_eph, new_x[i].end(), old_x[j].begin() + s.n_eph));
                    c.require(fine, "not an improvement", "individual ", i, " became ", new_x[i], " -> ", new_f[i], ", which improves none");
                    ++moved;
                }
            } else {
                double best = best_of(old_f);
                const double now = best_of(new_f);
                moved += now < best;
                c.require(!less(best, now), "worse", "the best fitness was ", best, " and is ", now);
                for (auto &e : tried)
                    if (less(e.f[0], best)) best = e.f[0];
                c.require(same(best, now), "lost", "a fitness of ", best, " was found, the best in the population is ", now);
                bool number = true;
                for (auto &f : old_f) number = number && !std::isnan(f[0]);
                for (auto &e : tried) number = number && !std::isnan(e.f[0]);
                const std::size_t NP = pop.size();
                if (p.kind != GD && number && !tried.empty() && tried.size() % NP == 0) {
                    // who is replaced: by es4cgp, whom the last mutant in the same place improves on; then, by both, one of the worst
                    std::vector<Vector> want_x = old_x, want_f = old_f;
                    if (p.kind == ES)
                        for (std::size_t i = 0; i < NP; ++i) {
                            const auto &e = tried[tried.size() - NP + i];
                            if (!(e.f[0] < old_f[i][0])) continue;
                            want_x[i] = e.x;
                            want_f[i] = e.f;
                        }
                    double worst = want_f[0][0];
                    for (auto &f : want_f) worst = std::max(worst, f[0]);
                    std::vector<std::size_t> differ;
                    for (std::size_t i = 0; i < NP; ++i)
                        if (!same(want_x[i], new_x[i]) || !same(want_f[i], new_f[i])) differ.push_back(i);
                    c.require(differ.size() <= 1, "places", "individuals ", differ, " are not those expected");
                    for (auto i : differ) c.require(want_f[i][0] == worst && same(new_f[i][0], now), "place", "individual ", i, " of fitness ", want_f[i], " became ", new_x[i], " -> ", new_f[i], ", the worst is ", worst);
                    if (p.kind == MES && best == best_of(old_f)) c.require(differ.empty(), "nothing better", "nothing better was found and individual ", differ, " is replaced");
                }
                // nobody is replaced by someone worse
                auto a = old_f, b = new_f;
                auto order = [](const Vector &x, const Vector &y) { return less(x[0], y[0]); };
                std::sort(a.begin(), a.end(), order);
                std::sort(b.begin(), b.end(), order);
                for (std::size_t i = 0; i < a.size(); ++i)
                    c.require(!less(a[i][0], b[i][0]), "degraded", "individual ", i, " from the best has fitness ", b[i][0], ", had ", a[i][0]);
            }
        } else {
            double best = best_of(old_f);
            moved += less(best_of(new_f), best);
            bool finite = true;
            for (auto &f : old_f) finite = finite && std::isfinite(f[0]);
            for (auto &e : tried) finite = finite && std::isfinite(e.f[0]);
            if (!finite) c.label("not finite");
            // with few individuals, equals may crowd out an end of the front
            if (pop.size() >= 4 && finite) {
                c.require(!(best < best_of(new_f)), "worse", "the best loss was ", best, " and is ", best_of(new_f));
                for (auto &e : tried) best = std::min(best, e.f[0]);
                c.require(best == best_of(new_f), "lost", "a loss of ", best, " was found, the best in the population is ", best_of(new_f));
            }
            // nobody new is dominated by someone old, unless that one stayed or fronts are larger than the population
            if (p.gen == 1) {
                std::vector<Vector> pool_x = old_x, pool_f = old_f;
                for (auto &e : tried) {
                    if (p.kind == MOMES && (!std::isfinite(e.f[0]) || contains(pool_f, e.f))) continue;
                    pool_x.push_back(e.x);
                    pool_f.push_back(e.f);
                }
                const auto r = ranks(pool_f);
                std::vector<bool> kept(pool_x.size(), false);
                unsigned worst = 0;
                for (std::size_t i = 0; i < pop.size(); ++i) {
                    std::size_t at = pool_x.size();
                    for (std::size_t j = 0; j < pool_x.size() && at == pool_x.size(); ++j)
                        if (!kept[j] && same(pool_x[j], new_x[i]) && same(pool_f[j], new_f[i])) at = j;
                    c.require(at < pool_x.size(), "multiplied", "individual ", i, ", ", new_x[i], " -> ", new_f[i], ", is there more times than it was selected from");
                    kept[at] = true;
                    worst = std::max(worst, r[at]);
                }
                for (std::size_t j = 0; j < pool_x.size(); ++j)
                    c.require(kept[j] || r[j] >= worst, "selection", pool_x[j], " -> ", pool_f[j], " of rank ", r[j], " is not selected, one of rank ", worst, " is");
                c.label("ranks");
            }
        }
    }
    c.label(kind_name(p.kind));
    if (moved) c.label(std::string("better: ") + kind_name(p.kind));
    c.nontrivial(changed > 0);
}

int main(int argc, char **argv)
{
    watch();
    pbt::Property p;
    p.id = "L01";
    p.rule = "random algorithms, problems, populations and histories of evolutions, the problem recording every evaluation; the populations before and after and the candidates evaluated are compared; "
             "non-trivial: some individual is new; counted distinct by choice sequence";
    p.subs = {{"evolutions", 60000, 600000, evolutions}};
    p.assumptions = {"with the stand-ins for AuDi and SymEngine", "the best loss of several objectives is looked at for four individuals or more (pagmo's crowding distance may drop an end of the front below that)",
                     "constants may leave the bounds: the algorithms do not confine them"};
    return pbt::run(argc, argv, p);
}
