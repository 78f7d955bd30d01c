// P02: the gradient and the Hessians of a candidate are the derivatives of its fitness in the constants.
// FLAGS: -O1 -g0 -D_GLIBCXX_ASSERTIONS -fsanitize=undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <problem.hpp>
#include <taylor.hpp>

using namespace cgp;
using dcgp::symbolic_regression;
using ev::q;

template <typename T>
static typename dcgp::expression<T>::pc_fun_type corrector(const Correction &pc)
{
    return [pc](const std::vector<T> &x, std::function<std::vector<T>(const std::vector<T> &)> f) { return pc.apply(f(x), x); };
}
// The loss along a direction in the space of the constants.
static std::array<q, 5> along(const Config &k, const Vector &x, const std::vector<double> &dir, const Correction &pc)
{
    return ev::taylor([&](q h) {
        q sum = 0;
        for (std::size_t p = 0; p < k.X.size(); ++p) {
            std::vector<q> in, point, y;
            for (double v : k.X[p]) point.push_back(q(v));
            in = point;
            for (unsigned i = 0; i < k.s.n_eph; ++i) in.push_back(q(x[i]) + h * q(dir[i]));
            for (double v : k.Y[p]) y.push_back(q(v));
            sum += loss_ref(pc.apply(evaluate_documented<q>(k.s, genes(k, x), in), point), y, k.ce);
        }
        return sum / q(static_cast<double>(k.X.size()));
    }, 1e-5);
}

// The largest Taylor coefficient of the outputs along a direction: what is subtracted in a cross entropy.
static double largest(const Config &k, const Vector &x, const std::vector<double> &dir, const Correction &pc)
{
    double r = 0;
    for (std::size_t p = 0; p < k.X.size(); ++p)
        for (unsigned o = 0; o < k.s.m; ++o) {
            const auto t = ev::taylor([&](q h) {
                std::vector<q> in, point;
                for (double v : k.X[p]) point.push_back(q(v));
                in = point;
                for (unsigned i = 0; i < k.s.n_eph; ++i) in.push_back(q(x[i]) + h * q(dir[i]));
                return pc.apply(evaluate_documented<q>(k.s, genes(k, x), in), point)[o];
            }, 1e-5);
            for (auto &z : t) {
                const double v = std::abs(static_cast<double>(z));
                if (!(v <= r)) r = v;
            }
        }
    return r;
}

static void derivatives(Gen &g, Case &c)
{
    ProblemLimits L;
    L.points = 4;
    const bool many = g.chance(1, 4);
    L.shape = many ? Limits{2, 14, 2, 3, 4, 4, 3} : Limits{3, 4, 3, 2, 5, 3, 5};
    L.span = 2;
    static const std::vector<std::string> smooth = {"sum", "diff", "mul", "sin", "cos", "div", "pdiv", "tanh", "sig", "exp", "gaussian"};
    Config k = config(g, g.flip() ? smooth : g.flip() ? ev::catalogue() : std::vector<std::string>{"sum", "mul", "diff", "sin_nu"}, L);
    if (many && g.flip()) k.s.n_eph = g.u(9, 14);
    if (k.s.n_eph == 0) k.s.n_eph = g.u(0, 2);
    const unsigned n = k.s.n_eph;
    auto u = k.build();
    Correction pc;
    const auto correct = [&]() {
        pc.kind = static_cast<int>(g.u(1, 3));
        pc.a = g.pick(std::vector<double>{2, -1, 0.5});
        u.set_phenotype_correction(corrector<double>(pc), corrector<audi::gdual_v>(pc));
        c.trace(" correction ", pc.kind, ",", pc.a);
    };
    if (g.chance(1, 5)) correct();
    std::vector<Vector> xs{candidate(g, k)};
    if (g.flip()) {
        xs.push_back(xs[0]);
        if (n) xs[1][g.raw(n - 1)] = g.real(-3, 3);
    }
    c.note(k, " correction ", pc.kind, ":");
    for (auto &x : xs) c.trace(" x=", x);
    pagmo::problem prob(u);
    const auto gs = prob.gradient_sparsity();
    const auto hs = prob.hessians_sparsity();
    c.require(gs.size() == n, "gradient pattern", "there are ", gs.size(), " gradient entries for ", n, " constants");
    c.require(hs.size() == (k.multi ? 2u : 1u) && hs[0].size() == n * (n + 1) / 2, "hessian pattern", "the Hessian pattern has ", hs.size(), " parts, ", hs.empty() ? 0 : hs[0].size(),
              " entries in the first");
    std::set<std::pair<std::size_t, std::size_t>> entries(gs.begin(), gs.end());
    c.require(entries.size() == n, "gradient pattern", "an entry of the gradient is there twice");
    for (auto &e : gs) c.require(e.first == 0 && e.second < n, "gradient pattern", "the gradient has an entry (", e.first, ",", e.second, ")");
    entries = {hs[0].begin(), hs[0].end()};
    c.require(entries.size() == hs[0].size(), "hessian pattern", "an entry of the Hessian is there twice");
    for (auto &e : hs[0]) c.require(e.second <= e.first && e.first < n, "hessian pattern", "the Hessian has an entry (", e.first, ",", e.second, ")");
    unsigned compared = 0, dependent = 0;
    const unsigned ops = g.u(2, 5);
    const bool change = g.chance(1, 3);
    for (unsigned o = 0; o < ops; ++o) {
        const Vector &x = xs[g.raw(xs.size() - 1)];
        const auto op = g.raw(4);
        const bool direct = g.flip();
        if (change && o > 0 && g.flip()) { // the model changes, after what was evaluated
            if (g.chance(1, 3)) {
                pc = Correction{};
                u.unset_phenotype_correction();
                c.trace(" no correction");
            } else {
                correct();
            }
            prob = pagmo::problem(u);
        }
        if (op == 0) { // something else in between
            c.trace(" fitness");
            direct ? u.fitness(xs[0]) : prob.fitness(xs[0]);
            continue;
        }
        bool good = tame_candidate(k, x, k.ce ? 1500 : 1e4);
        const auto check = [&](const std::vector<double> &dir, std::size_t coefficient, double got, const std::string &what) {
            ev::margin() = 1e300;
            const auto t = along(k, x, dir, pc);
            double scale = 1;
            bool fine = ev::margin() >= 0.02;
            for (auto &z : t) {
                const double v = std::abs(static_cast<double>(z));
                fine = fine && v < 1e6;
                scale = std::max(scale, v);
            }
            if (fine && k.ce) {
                const double l = largest(k, x, dir, pc);
                fine = l < 1e7;
                scale = std::max(scale, 1e-3 * l);
            }
            if (!fine) return;
            const double want = static_cast<double>(t[coefficient]) * (coefficient == 2 ? 2 : 1);
            c.require(std::abs(got - want) <= 1e-6 * scale, coefficient == 2 ? "hessian" : "gradient", what, " of ", x, " is ", got, ", expected ", want);
            ++compared;
            dependent += want != 0;
        };
        const auto unit = [&](std::size_t i, std::size_t j) {
            std::vector<double> d(n, 0.);
            d[i] += 1;
            if (j != i) d[j] += 1;
            return d;
        };
        if (op <= 2) {
            c.trace(" gradient(", &x - &xs[0], ")");
            const auto got = direct ? u.gradient(x) : prob.gradient(x);
            c.require(got.size() == n, "gradient size", "the gradient has ", got.size(), " entries");
            if (!good) continue;
            for (std::size_t e = 0; e < gs.size(); ++e) check(unit(gs[e].second, gs[e].second), 1, got[e], "derivative " + std::to_string(gs[e].second));
        } else {
            c.trace(" hessians(", &x - &xs[0], ")");
            const auto got = direct ? u.hessians(x) : prob.hessians(x);
            c.require(got.size() == hs.size(), "hessian size", "there are ", got.size(), " Hessians");
            for (std::size_t i = 0; i < hs.size(); ++i) c.require(got[i].size() == hs[i].size(), "hessian size", "Hessian ", i, " has ", got[i].size(), " entries");
            if (k.multi)
                for (double v : got[1]) c.require(v == 0, "hessian of the complexity", "the Hessian of the complexity is ", got[1]);
            if (!good) continue;
            std::vector<double> diagonal(n);
            for (std::size_t e = 0; e < hs[0].size(); ++e)
                if (hs[0][e].first == hs[0][e].second) diagonal[hs[0][e].first] = got[0][e];
            unsigned off = 0;
            for (std::size_t e = 0; e < hs[0].size(); ++e) {
                const auto i = hs[0][e].first, j = hs[0][e].second;
                const std::string what = "second derivative " + std::to_string(i) + "," + std::to_string(j);
                if (i == j) {
                    check(unit(i, i), 2, got[0][e], what);
                } else if (n < 5 || (off < 12 && g.chance(1, 4))) {
                    ++off;
                    check(unit(i, j), 2, diagonal[i] + diagonal[j] + 2 * got[0][e], what + " (sum over the block)");
                }
            }
        }
    }
    if (compared) c.label(many ? "many constants" : k.multi ? "two objectives" : "one objective");
    if (compared && k.ce) c.label("cross entropy");
    c.nontrivial(dependent > 0);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "P02";
    p.rule = "random data, configurations with up to fourteen constants, candidates and histories; every first derivative, every diagonal and many other second derivatives compared with "
             "nine-point differences in quadruple precision; non-trivial: a derivative compared that is not zero; counted distinct by choice sequence";
    p.subs = {{"derivatives", 120000, 1500000, derivatives}};
    p.case_cpu_s = 30;
    p.assumptions = {"with the stand-in for AuDi", "compared where the loss is smooth and moderate at all points (outputs up to 1500 for the cross entropy), with tolerance 1e-6 of the largest Taylor coefficient"};
    return pbt::run(argc, argv, p);
}
