// P01: the fitness of a candidate is the loss of the program it encodes.
// FLAGS: -O1 -g0 -D_GLIBCXX_ASSERTIONS -fsanitize=undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include <problem.hpp>

using namespace cgp;
using dcgp::symbolic_regression;
using ev::Ev;

template <typename T>
static typename dcgp::expression<T>::pc_fun_type corrector(const Correction &pc)
{
    return [pc](const std::vector<T> &x, std::function<std::vector<T>(const std::vector<T> &)> f) { return pc.apply(f(x), x); };
}

static void histories(Gen &g, Case &c)
{
    ProblemLimits L;
    if (g.chance(1, 10)) L.points = 40;
    const Config k = config(g, g.flip() ? ev::catalogue() : std::vector<std::string>{"sum", "diff", "mul", "pdiv"}, L);
    c.note(k, ":");
    std::vector<symbolic_regression> udps{k.build()};
    const bool wrapped = g.flip();
    Correction pc;
    std::vector<Vector> xs;
    for (unsigned i = g.u(1, 3); i > 0; --i) {
        if (!xs.empty() && g.flip()) { // a neighbour of another one
            xs.push_back(xs[0]);
            if (k.s.n_eph && g.flip())
                xs.back()[g.raw(k.s.n_eph - 1)] = g.real(-3, 3);
            else {
                Chrom lb, ub;
                k.s.bounds(lb, ub);
                const std::size_t j = g.raw(lb.size() - 1);
                xs.back()[k.s.n_eph + j] = lb[j] + static_cast<double>(g.raw(ub[j] - lb[j]));
            }
        } else {
            xs.push_back(candidate(g, k));
        }
    }
    for (auto &x : xs) c.trace(" x=", x);
    unsigned checked = 0, active = 0;
    std::map<std::size_t, std::vector<double>> seen; // the fitness each candidate had
    const unsigned ops = g.u(1, 8);
    for (unsigned o = 0; o < ops; ++o) {
        const std::size_t i = g.raw(xs.size() - 1);
        auto &u = udps[g.raw(udps.size() - 1)];
        switch (g.raw(9)) {
            case 0:
                c.trace(" gradient(", i, ")");
                u.gradient(xs[i]);
                break;
            case 1:
                c.trace(" hessians(", i, ")");
                u.hessians(xs[i]);
                break;
            case 2:
                c.trace(" predict(", i, ")");
                u.predict(k.X[0], xs[i]);
                break;
            case 3:
                c.trace(" pretty(", i, ")");
                u.pretty(xs[i]);
                break;
            case 4: {
                if (udps.size() > 2) break;
                c.trace(" copy");
                const symbolic_regression copy(u);
                udps.push_back(copy);
                break;
            }
            case 5: {
                if (udps.size() > 2 || pc.kind) break;
                c.trace(" archive");
                std::stringstream ss;
                {
                    boost::archive::binary_oarchive a(ss);
                    a << u;
                }
                symbolic_regression r = k.build();
                {
                    boost::archive::binary_iarchive a(ss);
                    a >> r;
                }
                udps.push_back(r);
                break;
            }
            case 6: {
                if (!g.chance(1, 2)) break;
                pc.kind = static_cast<int>(g.raw(3));
                pc.a = g.pick(std::vector<double>{2, -1, 0.5});
                c.trace(" correction ", pc.kind, " with ", pc.a);
                seen.clear();
                for (auto &v : udps) {
                    if (pc.kind)
                        v.set_phenotype_correction(corrector<double>(pc), corrector<audi::gdual_v>(pc));
                    else
                        v.unset_phenotype_correction();
                }
                break;
            }
            default: {
                c.trace(" fitness(", i, ")");
                const auto got = wrapped ? pagmo::problem(u).fitness(xs[i]) : u.fitness(xs[i]);
                c.require(got.size() == (k.multi ? 2u : 1u), "size", "the fitness is ", got);
                if (k.multi) {
                    const double genes_used = static_cast<double>(reachable_genes(k.s, genes(k, xs[i])).size());
                    c.require(got[1] == genes_used, "complexity", "the complexity of ", xs[i], " is ", got[1], ", expected ", genes_used);
                }
                const Ev want = reference_loss(k, xs[i], pc);
                if (want.bad) {
                    c.label("undefined");
                    break;
                }
                c.require(ev::matches(got[0], want, 16), "loss", "the fitness of ", xs[i], " is ", got[0], ", expected ", want);
                ++checked;
                for (unsigned r : reachable(k.s, genes(k, xs[i]))) active += r >= k.s.in();
            }
        }
    }
    if (checked) c.label(pc.kind ? "corrected" : k.multi ? "two objectives" : "one objective");
    c.nontrivial(checked > 1 && active > 0);
}

// A division by zero: the derivatives are those of the plain division, the fitness that of the protected one.
static void protection(Gen &g, Case &c)
{
    ProblemLimits L;
    L.shape = Limits{2, 2, 2, 2, 5, 3, 3};
    Config k = config(g, {"pdiv", "diff", "sum", "mul"}, L);
    k.s.kernels.push_back("pdiv");
    k.s.kernels.push_back("diff");
    k.ce = false;
    for (auto &p : k.X)
        for (double &v : p)
            if (g.flip()) v = 0;
    const auto u = k.build();
    const Vector x = candidate(g, k), y = candidate(g, k);
    const bool second = g.flip();
    c.note(k, ": x=", x, " y=", y, second ? " hessians" : " gradient");
    const auto f = u.fitness(x);
    u.fitness(y);
    if (second)
        u.hessians(x);
    else
        u.gradient(x);
    const auto again = u.fitness(x);
    c.require(same(f[0], again[0]) || std::abs(f[0] - again[0]) <= 1e-9 * (1 + std::abs(f[0])), "changes", "the fitness of ", x, " is ", f[0], ", then ", again[0],
              " once the derivatives are computed");
    const Ev want = reference_loss(k, x);
    if (!want.bad) c.require(ev::matches(again[0], want, 16), "loss", "the fitness of ", x, " is ", again[0], ", expected ", want);
    bool zero = false;
    for (auto &p : k.X) zero = zero || std::any_of(p.begin(), p.end(), [](double v) { return v == 0; });
    c.nontrivial(zero && !want.bad);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "P01";
    p.rule = "random data, configurations and decision vectors; histories of evaluations, derivatives, predictions, texts, copies, archives and corrections, every fitness compared with "
             "a reference; non-trivial: at least two fitness compared and an active node, or a division by zero in reach; counted distinct by choice sequence";
    p.subs = {{"histories", 200000, 3000000, histories}, {"protection", 60000, 600000, protection}};
    p.assumptions = {"with the stand-in for AuDi", "undefined or ill-conditioned reference values are not compared"};
    return pbt::run(argc, argv, p);
}
