// Evolving populations of symbolic regression problems: generated algorithms, a problem that records what is asked of it.
#ifndef VERIF_EVOLVE_HPP
#define VERIF_EVOLVE_HPP
#include <atomic>
#include <iostream>
#include <memory>
#include <mutex>
#include <variant>

#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <pagmo/batch_evaluators/member_bfe.hpp>
#include <pagmo/batch_evaluators/thread_bfe.hpp>
#include <pagmo/bfe.hpp>
#include <pagmo/population.hpp>
#include <pagmo/problem.hpp>

#include <problem.hpp>

namespace cgp
{
// What a problem was asked, in order.
struct Record {
    struct Event {
        char what; // F, G, H
        Vector x, f;
    };
    std::vector<Event> events;
    std::mutex m;
    void add(char what, const Vector &x, const Vector &f)
    {
        std::lock_guard<std::mutex> l(m);
        events.push_back({what, x, f});
    }
    std::vector<Event> fitnesses() const
    {
        std::vector<Event> r;
        for (auto &e : events)
            if (e.what == 'F') r.push_back(e);
        return r;
    }
    std::size_t count(char what) const
    {
        return std::count_if(events.begin(), events.end(), [&](auto &e) { return e.what == what; });
    }
};
// A symbolic regression that records. The algorithms find the regression inside it the way they do in Python: through the
// replaceable function dcgp::details::extract_sr_cpp_py.
struct Recorder {
    dcgp::symbolic_regression sr;
    std::shared_ptr<Record> record = std::make_shared<Record>();

    Vector fitness(const Vector &x) const
    {
        auto f = sr.fitness(x);
        record->add('F', x, f);
        return f;
    }
    Vector gradient(const Vector &x) const
    {
        auto f = sr.gradient(x);
        record->add('G', x, f);
        return f;
    }
    std::vector<Vector> hessians(const Vector &x) const
    {
        auto f = sr.hessians(x);
        record->add('H', x, f[0]);
        return f;
    }
    auto get_nobj() const { return sr.get_nobj(); }
    auto get_nix() const { return sr.get_nix(); }
    auto get_bounds() const { return sr.get_bounds(); }
    auto gradient_sparsity() const { return sr.gradient_sparsity(); }
    auto hessians_sparsity() const { return sr.hessians_sparsity(); }
    auto get_name() const { return sr.get_name(); }
    auto get_extra_info() const { return sr.get_extra_info(); }
    auto get_thread_safety() const { return sr.get_thread_safety(); }
    template <typename Archive>
    void serialize(Archive &, unsigned)
    {
    }
};
inline void watch()
{
    dcgp::details::extract_sr_cpp_py = [](const pagmo::problem &p) -> const dcgp::symbolic_regression * {
        if (auto r = p.extract<Recorder>()) return &r->sr;
        return p.extract<dcgp::symbolic_regression>();
    };
}
// What is written on the standard output while this lives.
struct Capture {
    std::ostringstream text;
    std::streambuf *old = std::cout.rdbuf(text.rdbuf());
    ~Capture()
    {
        std::cout.rdbuf(old);
    }
};
struct Line {
    unsigned gen = 0;
    unsigned long long fevals = 0, gevals = 0, front = 0;
    double best = 0, complexity = 0, norm = 0, lr = 0;
    Vector constants;
    std::string formula;
    friend std::ostream &operator<<(std::ostream &os, const Line &l)
    {
        os << "(gen " << l.gen << ", fevals " << l.fevals << ", best " << l.best;
        os << ", gevals " << l.gevals << ", front " << l.front << ", complexity " << l.complexity << ", norm " << l.norm << ", lr " << l.lr << ", constants ";
        pbt::Case::put(os, l.constants);
        return os << ", " << l.formula << ')';
    }
    bool operator==(const Line &o) const
    {
        bool r = gen == o.gen && fevals == o.fevals && gevals == o.gevals && front == o.front && same(best, o.best) && same(complexity, o.complexity) && same(norm, o.norm)
                 && same(lr, o.lr) && formula == o.formula && constants.size() == o.constants.size();
        for (std::size_t i = 0; r && i < constants.size(); ++i) r = same(constants[i], o.constants[i]);
        return r;
    }
};
using Algorithm = std::variant<dcgp::es4cgp, dcgp::moes4cgp, dcgp::mes4cgp, dcgp::momes4cgp, dcgp::gd4cgp>;
enum Kind { ES, MOES, MES, MOMES, GD };
inline const char *kind_name(int k)
{
    static const char *n[] = {"es4cgp", "moes4cgp", "mes4cgp", "momes4cgp", "gd4cgp"};
    return n[k];
}
struct Plan {
    int kind = 0;
    unsigned gen = 1, max_mut = 4, verbosity = 0, seed = 0;
    double ftol = 0, lr = 1, lr_min = 1e-3;
    bool learn = true;
    int bfe = 0; // 0: none, 1: sequential, 2: threads
    bool evolutionary() const
    {
        return kind != GD;
    }
    bool multi() const
    {
        return kind == MOES || kind == MOMES;
    }
    bool memetic() const
    {
        return kind == MES || kind == MOMES;
    }
    friend std::ostream &operator<<(std::ostream &os, const Plan &p)
    {
        os << kind_name(p.kind) << "(gen " << p.gen;
        if (p.kind == GD) return os << ", lr " << p.lr << ", lr_min " << p.lr_min << ") verbosity " << p.verbosity;
        os << ", max_mut " << p.max_mut << ", ftol " << p.ftol;
        if (!p.memetic()) os << (p.learn ? ", learning" : ", not learning");
        return os << ", seed " << p.seed << ") verbosity " << p.verbosity << " bfe " << p.bfe;
    }
    Algorithm build() const;
};
// A batch evaluator that takes one candidate after another.
struct one_by_one {
    static inline std::atomic<unsigned> calls{0};
    Vector operator()(const pagmo::problem &p, const Vector &dvs) const
    {
        const auto n = p.get_nx();
        ++calls;
        const pagmo::problem q(p); // pagmo::bfe counts the evaluations
        Vector r;
        for (std::size_t i = 0; i < dvs.size() / n; ++i) {
            const auto f = q.fitness(Vector(dvs.begin() + i * n, dvs.begin() + (i + 1) * n));
            r.insert(r.end(), f.begin(), f.end());
        }
        return r;
    }
    template <typename Archive>
    void serialize(Archive &, unsigned)
    {
    }
};
inline Algorithm Plan::build() const
{
    auto done = [&](auto a) {
        a.set_verbosity(verbosity);
        if constexpr (std::is_same<decltype(a), dcgp::es4cgp>::value || std::is_same<decltype(a), dcgp::moes4cgp>::value) {
            if (bfe == 1) a.set_bfe(pagmo::bfe{one_by_one{}});
            if (bfe == 2) a.set_bfe(pagmo::bfe{pagmo::thread_bfe{}});
        }
        return Algorithm(std::move(a));
    };
    switch (kind) {
        case ES:
            return done(dcgp::es4cgp(gen, max_mut, ftol, learn, seed));
        case MOES:
            return done(dcgp::moes4cgp(gen, max_mut, ftol, learn, seed));
        case MES:
            return done(dcgp::mes4cgp(gen, max_mut, ftol, seed));
        case MOMES:
            return done(dcgp::momes4cgp(gen, max_mut, ftol, seed));
        default:
            return done(dcgp::gd4cgp(gen, lr, lr_min));
    }
}
inline pagmo::population evolve(const Algorithm &a, const pagmo::population &pop)
{
    return std::visit([&](auto &x) { return x.evolve(pop); }, a);
}
inline std::vector<Line> log_of(const Algorithm &a)
{
    std::vector<Line> r;
    std::visit(
        [&](auto &x) {
            for (auto &l : x.get_log()) {
                Line n;
                n.gen = std::get<0>(l);
                n.fevals = std::get<1>(l);
                using A = std::decay_t<decltype(x)>;
                if constexpr (std::is_same<A, dcgp::gd4cgp>::value) {
                    n.gevals = std::get<2>(l);
                    n.norm = std::get<3>(l);
                    n.lr = std::get<4>(l);
                    n.best = std::get<5>(l);
                } else if constexpr (std::is_same<A, dcgp::es4cgp>::value || std::is_same<A, dcgp::mes4cgp>::value) {
                    n.best = std::get<2>(l);
                    n.constants = std::get<3>(l);
                    n.formula = std::get<4>(l);
                } else {
                    n.best = std::get<2>(l);
                    n.front = std::get<3>(l);
                    n.complexity = std::get<4>(l);
                }
                r.push_back(n);
            }
        },
        a);
    return r;
}
struct PlanLimits {
    unsigned gen = 6;
    bool threads = false;
};
inline Plan plan(Gen &g, PlanLimits L = {})
{
    Plan p;
    p.kind = static_cast<int>(g.raw(4));
    p.gen = g.chance(1, 6) ? g.u(0, 4 * L.gen) : g.small(1, L.gen);
    p.max_mut = g.small(1, 6);
    p.seed = static_cast<unsigned>(g.seed());
    p.verbosity = g.flip() ? 0 : g.small(1, 4);
    p.learn = !g.chance(1, 3);
    p.bfe = static_cast<int>(g.raw(L.threads ? 2 : 1));
    p.ftol = g.chance(1, 2) ? 0. : g.pick(std::vector<double>{1e-12, 0.01, 0.1, 0.5, 1, 5, 100});
    p.lr = g.real(0.01, 2);
    p.lr_min = p.lr * g.pick(std::vector<double>{1e-6, 1e-3, 0.1, 0.25, 0.9});
    return p;
}
// A problem the algorithm can work on; half of the time a program of the right shape fits the data exactly.
inline Config config_for(Gen &g, const Plan &p, const std::vector<std::string> &pool, ProblemLimits L = {})
{
    Config k = config(g, pool, L);
    k.parallel = 0;
    k.multi = p.multi();
    if (p.kind == GD && k.s.n_eph == 0) k.s.n_eph = 1;
    if (!k.ce && g.flip()) {
        const Vector x = candidate(g, k);
        Data Y;
        bool ok = true;
        for (auto &pt : k.X) {
            Y.emplace_back();
            for (auto &v : outputs<ev::Ev>(k, x, pt)) {
                ok = ok && !v.bad && std::fabs(v.v) < 100;
                Y.back().push_back(v.v);
            }
        }
        if (ok) k.Y = Y;
    }
    return k;
}
inline pagmo::population populate(Gen &g, const Config &k, const Recorder &r, unsigned most = 6, unsigned least = 2)
{
    pagmo::population pop(pagmo::problem(r), 0u, static_cast<unsigned>(g.seed()));
    const unsigned n = g.small(least, most);
    std::vector<Vector> xs;
    for (unsigned i = 0; i < n; ++i) {
        xs.push_back(i && g.chance(1, 6) ? g.pick(xs) : candidate(g, k));
        pop.push_back(xs.back());
    }
    return pop;
}
// a before b, NaN after everything
inline bool less(double a, double b)
{
    return std::isnan(b) ? !std::isnan(a) : a < b;
}
inline double best_of(const std::vector<Vector> &f)
{
    double b = f[0][0];
    for (auto &x : f)
        if (less(x[0], b)) b = x[0];
    return b;
}
inline bool dominates(const Vector &a, const Vector &b)
{
    bool some = false;
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (less(b[i], a[i])) return false;
        some = some || less(a[i], b[i]);
    }
    return some;
}
// 0 for the individuals no other one dominates, and so on.
inline std::vector<unsigned> ranks(const std::vector<Vector> &f)
{
    std::vector<unsigned> r(f.size(), 0);
    std::vector<bool> done(f.size(), false);
    for (unsigned level = 0, left = f.size(); left > 0; ++level) {
        std::vector<std::size_t> now;
        for (std::size_t i = 0; i < f.size(); ++i) {
            if (done[i]) continue;
            bool free = true;
            for (std::size_t j = 0; j < f.size() && free; ++j) free = done[j] || !dominates(f[j], f[i]);
            if (free) now.push_back(i);
        }
        for (auto i : now) {
            r[i] = level;
            done[i] = true;
            --left;
        }
    }
    return r;
}
inline bool same(const Vector &a, const Vector &b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!same(a[i], b[i])) return false;
    return true;
}
} // namespace cgp

namespace cgp
{
inline std::string show(const pagmo::population &p)
{
    std::ostringstream ss;
    ss.precision(17);
    for (std::size_t i = 0; i < p.size(); ++i) {
        ss << (i ? "; " : "");
        pbt::Case::put(ss, p.get_x()[i]);
        ss << " -> ";
        pbt::Case::put(ss, p.get_f()[i]);
    }
    return ss.str();
}
} // namespace cgp
#endif
