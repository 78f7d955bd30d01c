// L05: the candidates an evolution tries are mutations of its parents.
// FLAGS: -O1 -g0 -D_GLIBCXX_ASSERTIONS -fsanitize=undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include <evolve.hpp>
#include <Eigen/Dense>
PAGMO_S11N_PROBLEM_EXPORT(cgp::Recorder)
PAGMO_S11N_BFE_EXPORT(cgp::one_by_one)

using namespace cgp;

static const std::vector<std::string> &kernels(Gen &g)
{
    static const std::vector<std::string> plain = {"sum", "diff", "mul", "div"}, more = {"sum", "diff", "mul", "sin", "exp", "gaussian", "inv_sum", "tanh"}, line = {"sum", "mul"};
    return g.chance(1, 3) ? line : g.chance(1, 3) ? plain : g.chance(1, 2) ? more : ev::catalogue();
}
static unsigned distance(const Config &k, const Vector &a, const Vector &b)
{
    unsigned d = 0;
    for (std::size_t i = k.s.n_eph; i < a.size(); ++i) d += a[i] != b[i];
    return d;
}
static bool close(double a, double b)
{
    return a == b || std::abs(a - b) <= 1e-9 * (std::abs(a) + std::abs(b));
}
// What one step of Newton's method makes of the constants of x; the empty string if y has them.
static std::string newton(const Config &k, const dcgp::symbolic_regression &u, const Vector &x, const Vector &y, Case &c)
{
    const unsigned n = k.s.n_eph;
    if (n == 0) return "";
    const auto G = u.gradient(x);
    const auto hs = u.hessians_sparsity()[0];
    const auto hv = u.hessians(x)[0];
    Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, n);
    for (std::size_t e = 0; e < hs.size(); ++e) H(hs[e].first, hs[e].second) = H(hs[e].second, hs[e].first) = hv[e];
    std::ostringstream why;
    why.precision(17);
    std::vector<unsigned> S;
    for (unsigned i = 0; i < n; ++i) {
        if (G[i] != 0.) {
            S.push_back(i);
        } else if (n > 1) {
            // the loss does not depend on it: drawn anew
            if (!(y[i] >= -10 && y[i] <= 10)) why << "constant " << i << " does not matter and became " << y[i] << ". ";
        } else if (y[0] != x[0]) {
            why << "the constant does not matter and became " << y[0] << " from " << x[0] << ". ";
        }
    }
    if (S.size() == 1) {
        const unsigned i = S[0];
        const double step = G[i] / H(i, i);
        const bool sane = H(i, i) != 0. && std::isfinite(G[i]) && std::isfinite(H(i, i));
        const double want = sane ? x[i] - step : x[i];
        if (std::isfinite(want) && !close(y[i], want)) why << "constant " << i << " was " << x[i] << ", became " << y[i] << ", Newton's step leads to " << want << ". ";
        if (sane && step != 0) c.label(n == 1 ? "step of one" : "step of one of many");
    } else if (S.size() > 1) {
        const unsigned m = static_cast<unsigned>(S.size());
        Eigen::MatrixXd A(m, m);
        Eigen::VectorXd b(m);
        bool unchanged = true;
        for (unsigned i = 0; i < m; ++i) {
            b(i) = G[S[i]];
            unchanged = unchanged && x[S[i]] == y[S[i]];
            for (unsigned j = 0; j < m; ++j) A(i, j) = H(S[i], S[j]);
        }
        if (!b.array().isFinite().all()) {
            if (!unchanged) why << "the gradient is not finite and the constants are changed. ";
        } else if (A.array().isFinite().all()) {
            Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(A);
            const double lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().cwiseAbs().maxCoeff(), small = es.eigenvalues().cwiseAbs().minCoeff();
            if (small > 1e-7 * hi && small > 1e-100 && hi < 1e100) {
                const Eigen::VectorXd step = A.fullPivLu().solve(b);
                bool stepped = true;
                for (unsigned i = 0; i < m; ++i) {
                    const double want = x[S[i]] - step(i);
                    stepped = stepped && std::abs(want - y[S[i]]) <= 1e-6 * (1 + step.cwiseAbs().maxCoeff() + std::abs(want));
                }
                // where the loss is not convex, a step may or may not be taken
                if (!stepped && !(unchanged && lo < 0)) {
                    why << "constants ";
                    for (unsigned i = 0; i < m; ++i) why << S[i] << ": " << x[S[i]] << " became " << y[S[i]] << ", Newton's step leads to " << x[S[i]] - step(i) << ", ";
                }
                if (lo > 0) c.label("step of many");
            }
        }
    }
    return why.str();
}
// Is y a possible offspring of x? Why not, if not.
static std::string offspring(const Config &k, const dcgp::symbolic_regression &u, const Plan &p, const Vector &x, const Vector &y, Case &c)
{
    const unsigned d = distance(k, x, y);
    if (d > p.max_mut) return std::to_string(d) + " genes differ";
    if (p.memetic()) {
        Vector z(x.begin(), x.begin() + k.s.n_eph);
        z.insert(z.end(), y.begin() + k.s.n_eph, y.end());
        return newton(k, u, z, y, c);
    }
    for (unsigned i = 0; i < k.s.n_eph; ++i) {
        if (!p.learn && x[i] != y[i]) return "constant " + std::to_string(i) + " differs";
        if (p.learn && (x[i] == y[i] || !std::isfinite(y[i]))) return "constant " + std::to_string(i) + " is not perturbed";
    }
    return "";
}
static bool match(const std::vector<std::vector<bool>> &can, std::size_t i, std::vector<int> &owner, std::vector<bool> &seen)
{
    for (std::size_t j = 0; j < can[i].size(); ++j) {
        if (!can[i][j] || seen[j]) continue;
        seen[j] = true;
        if (owner[j] < 0 || match(can, static_cast<std::size_t>(owner[j]), owner, seen)) {
            owner[j] = static_cast<int>(i);
            return true;
        }
    }
    return false;
}
static void mutants(Gen &g, Case &c)
{
    Plan p = plan(g);
    p.kind = static_cast<int>(g.raw(3));
    p.ftol = 0;
    if (p.multi()) p.gen = 1;
    const Config k = config_for(g, p, kernels(g));
    const auto u = k.build();
    Recorder rec{u};
    const bool crowd = p.multi() && g.chance(1, 12);
    const auto pop = populate(g, k, rec, crowd ? 50 : 8, crowd ? 40 : 2);
    c.note(p, " on ", k, " population ", show(pop));
    rec.record->events.clear();
    const auto algo = p.build();
    {
        Capture quiet;
        evolve(algo, pop);
    }
    const auto tried = rec.record->fitnesses();
    const std::size_t NP = pop.size();
    unsigned mutated = 0;
    // as many as individuals at each generation, fewer generations if the loss became negative
    c.require(tried.size() <= NP * p.gen && tried.size() % NP == 0, "number", tried.size(), " candidates were tried in ", p.gen, " generations of ", NP);
    p.gen = static_cast<unsigned>(tried.size() / NP);
    Chrom lb, ub;
    k.s.bounds(lb, ub);
    unsigned mutable_genes = 0;
    for (std::size_t i = 0; i < lb.size(); ++i) mutable_genes += lb[i] < ub[i];
    for (auto &e : tried)
        for (std::size_t i = 0; i < lb.size(); ++i) {
            const double v = e.x[k.s.n_eph + i];
            c.require(v >= lb[i] && v <= ub[i] && v == std::floor(v), "gene", "gene ", i, " of the candidate ", e.x, " is ", v);
        }
    // pagmo may call the best one an individual whose fitness is not a number
    for (auto &f : pop.get_f())
        if (!p.multi() && std::isnan(f[0])) return;
    if (!p.multi()) {
        // every candidate comes from (one of) the best so far
        std::vector<Vector> xs = pop.get_x(), fs = pop.get_f();
        for (std::size_t t = 0; t < p.gen; ++t) {
            const double best = best_of(fs);
            std::vector<Vector> parents;
            for (std::size_t i = 0; i < xs.size(); ++i)
                if (same(fs[i][0], best)) parents.push_back(xs[i]);
            for (std::size_t i = t * NP; i < (t + 1) * NP; ++i) {
                std::string why;
                bool ok = false, differs = true;
                for (std::size_t j = 0; j < parents.size() && !ok; ++j) {
                    why = offspring(k, u, p, parents[j], tried[i].x, c);
                    ok = why.empty();
                    differs = distance(k, parents[j], tried[i].x) > 0;
                }
                c.require(ok, "parent", "the candidate ", tried[i].x, " of generation ", t + 1, " is no offspring of the best so far, like ", parents.back(), ": ", why);
                mutated += differs;
            }
            for (std::size_t i = t * NP; i < (t + 1) * NP; ++i) {
                xs.push_back(tried[i].x);
                fs.push_back(tried[i].f);
            }
        }
    } else if (p.gen) {
        // every individual has an offspring: the candidate in its place, if possible
        std::string why;
        bool aligned = true;
        for (std::size_t i = 0; i < NP; ++i) {
            const auto w = offspring(k, u, p, pop.get_x()[i], tried[i].x, c);
            if (!w.empty()) why = "candidate " + std::to_string(i) + ": " + w;
            aligned = aligned && w.empty();
            mutated += distance(k, pop.get_x()[i], tried[i].x) > 0;
        }
        std::vector<std::vector<bool>> can(NP, std::vector<bool>(NP));
        for (std::size_t i = 0; i < NP; ++i)
            for (std::size_t j = 0; j < NP; ++j) can[i][j] = aligned ? i == j : offspring(k, u, p, pop.get_x()[i], tried[j].x, c).empty();
        std::vector<int> owner(NP, -1);
        for (std::size_t i = 0; i < NP; ++i) {
            std::vector<bool> seen(NP, false);
            if (!match(can, i, owner, seen)) {
                std::ostringstream all;
                all.precision(17);
                for (auto &e : tried) {
                    Case::put(all, e.x);
                    all << "; ";
                }
                c.fail("parent", "the candidates ", all.str(), " are not one offspring of each individual; ", why);
            }
        }
    }
    if (tried.size() >= 40 && mutable_genes * 2 >= lb.size()) {
        c.require(mutated > 0, "not mutated", "none of ", tried.size(), " candidates has other genes than its parent");
        c.label("many candidates");
    }
    c.label(kind_name(p.kind));
    c.nontrivial(mutated > 0);
}
static void descent(Gen &g, Case &c)
{
    Plan p = plan(g);
    p.kind = GD;
    p.gen = g.u(0, 12);
    Config k = config_for(g, p, kernels(g));
    const auto u = k.build();
    Recorder rec{u};
    const auto pop = populate(g, k, rec, 3);
    c.note(p, " on ", k, " population ", show(pop));
    rec.record->events.clear();
    for (auto &f : pop.get_f())
        if (std::isnan(f[0])) return;
    const auto algo = p.build();
    pagmo::population after(pop);
    {
        Capture quiet;
        after = evolve(algo, pop);
    }
    const auto tried = rec.record->fitnesses();
    c.require(tried.size() <= p.gen, "iterations", tried.size(), " fitnesses were computed in ", p.gen, " iterations");
    const double best = best_of(pop.get_f());
    Vector x = pop.get_x()[pop.best_idx()];
    double f = best, lr = 0;
    bool improved = false;
    const unsigned n = k.s.n_eph;
    unsigned compared = 0;
    for (std::size_t t = 0; t < tried.size(); ++t) {
        const Vector &y = tried[t].x;
        c.require(distance(k, x, y) == 0, "genes", "the genes of ", x, " became ", y);
        const auto G = u.gradient(x);
        double norm = 0, step = 0, along = 0;
        for (unsigned i = 0; i < n; ++i) {
            norm += G[i] * G[i];
            step += (y[i] - x[i]) * (y[i] - x[i]);
            along -= (y[i] - x[i]) * G[i];
        }
        norm = std::sqrt(norm);
        step = std::sqrt(step);
        c.require(std::isfinite(norm) && norm >= 1e-13, "gradient", "a step was taken where the gradient has norm ", norm);
        // long enough to be told from rounding
        double size = 0;
        for (unsigned i = 0; i < n; ++i) size = std::max(size, std::abs(x[i]));
        if (step > 1e-6 * (1 + size)) {
            c.require(along >= (1 - 1e-6) * norm * step, "direction", "the step from ", x, " to ", y, " is not against the gradient ", G);
            if (t == 0) {
                c.require(std::abs(step - p.lr) <= 1e-6 * (step + size), "first step", "the first step, from ", x, " to ", y, " is ", step, " long, the learning rate is ", p.lr);
            } else if (lr > 0) {
                c.require(improved ? step > lr : step < lr, "rate", "step ", t + 1, ", from ", x, ", is ", step, " long, the one before was ", lr, " long and ", improved ? "successful" : "not successful");
            }
            lr = step;
            ++compared;
        } else {
            lr = 0;
        }
        improved = less(tried[t].f[0], f);
        if (improved) {
            x = y;
            f = tried[t].f[0];
        }
    }
    // why it stopped
    if (tried.size() < p.gen && std::isfinite(best)) {
        const auto G = u.gradient(x);
        double norm = 0;
        for (double v : G) norm += v * v;
        norm = std::sqrt(norm);
        const bool vanished = !std::isfinite(norm) || norm < 1e-13;
        c.require(vanished || (!tried.empty() && !improved && (lr == 0 || lr < p.lr_min * 8)), "stopped", "the descent stopped after ", tried.size(), " of ", p.gen, " iterations at ", x,
                  " where the gradient has norm ", norm, " after a step ", lr, " long");
    }
    c.require(same(best_of(after.get_f()), f), "result", "the best found is ", f, ", the best in the population is ", best_of(after.get_f()));
    c.nontrivial(compared > 1);
}

int main(int argc, char **argv)
{
    watch();
    pbt::Property p;
    p.id = "L05";
    p.rule = "random algorithms, problems and populations, the problem recording every candidate; each candidate compared with its possible parents, Newton and gradient steps with the derivatives "
             "the problem gives; non-trivial: some gene mutated, or more than one step; counted distinct by choice sequence";
    p.subs = {{"mutants", 60000, 900000, mutants}, {"descent", 30000, 400000, descent}};
    p.assumptions = {"with the stand-ins for AuDi and SymEngine", "Newton steps are compared where the Hessian is well conditioned; where the loss is not convex no step is accepted too",
                     "the size of the perturbation of the constants is not looked at (documented as 0.1, 10 in the code)"};
    return pbt::run(argc, argv, p);
}
