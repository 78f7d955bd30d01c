// Symbolic regression problems: generated configurations, candidates, and the reference fitness.
#ifndef VERIF_PROBLEM_HPP
#define VERIF_PROBLEM_HPP
#include <dcgp/problems/symbolic_regression.hpp>

#include <expr.hpp>
#include <gd.hpp>
#include <lossref.hpp>

namespace cgp
{
using Data = std::vector<std::vector<double>>;
struct Config {
    Shape s; // its arity is the same everywhere
    Data X, Y;
    bool multi = false;
    bool ce = false;
    unsigned parallel = 0;

    dcgp::symbolic_regression build() const
    {
        dcgp::kernel_set<double> ks(s.kernels);
        return dcgp::symbolic_regression(X, Y, s.r, s.c, s.l, s.arity[0], ks(), s.n_eph, multi, parallel, ce ? "CE" : "MSE", s.seed);
    }
    friend std::ostream &operator<<(std::ostream &os, const Config &k)
    {
        os << k.s << " points ";
        pbt::Case::put(os, k.X);
        os << " labels ";
        pbt::Case::put(os, k.Y);
        return os << (k.ce ? " CE" : " MSE") << (k.multi ? " multi" : "") << " parallel " << k.parallel;
    }
};
struct ProblemLimits {
    Limits shape{3, 3, 3, 2, 6, 3, 5};
    unsigned points = 8;
    double span = 3;
};
inline Config config(Gen &g, const std::vector<std::string> &pool, ProblemLimits L = {})
{
    Config k;
    k.s = shape(g, pool, L.shape);
    k.s.uniform = true;
    const unsigned a = g.u(2, L.shape.arity);
    k.s.arity.assign(k.s.c, a);
    const unsigned points = g.small(1, L.points);
    for (unsigned i = 0; i < points; ++i) {
        k.X.emplace_back();
        k.Y.emplace_back();
        for (unsigned j = 0; j < k.s.n; ++j) k.X.back().push_back(g.real(-L.span, L.span));
        for (unsigned j = 0; j < k.s.m; ++j) k.Y.back().push_back(g.real(-2, 2));
    }
    k.multi = g.flip();
    k.ce = k.s.m > 1 && g.chance(1, 3);
    if (k.ce && g.flip()) { // one class for each point
        for (auto &y : k.Y) {
            std::fill(y.begin(), y.end(), 0.);
            y[g.raw(y.size() - 1)] = 1.;
        }
    }
    if (g.chance(1, 3)) {
        std::vector<unsigned> d;
        for (unsigned i = 1; i <= points; ++i)
            if (points % i == 0) d.push_back(i);
        k.parallel = g.pick(d);
    }
    return k;
}
using Vector = std::vector<double>;
// A decision vector: the constants, then the genes.
inline Vector candidate(Gen &g, const Config &k)
{
    Vector x;
    for (unsigned i = 0; i < k.s.n_eph; ++i) x.push_back(g.chance(1, 8) ? g.pick(Vector{-10, 10, 0, 1}) : g.real(-3, 3));
    for (unsigned v : chromosome(g, k.s)) x.push_back(v);
    return x;
}
inline Chrom genes(const Config &k, const Vector &x)
{
    Chrom c;
    for (std::size_t i = k.s.n_eph; i < x.size(); ++i) c.push_back(static_cast<unsigned>(x[i]));
    return c;
}
template <typename V>
inline std::vector<V> outputs(const Config &k, const Vector &x, const Vector &point)
{
    std::vector<V> in;
    for (double v : point) in.push_back(V(v));
    for (unsigned i = 0; i < k.s.n_eph; ++i) in.push_back(V(x[i]));
    return evaluate_documented<V>(k.s, genes(k, x), in);
}
// Something done to the outputs of a program before they are compared with the labels.
struct Correction {
    int kind = 0;
    double a = 0;
    template <typename V>
    std::vector<V> apply(std::vector<V> out, const std::vector<V> &point) const
    {
        for (auto &o : out) {
            if (kind == 1) o = o * V(a) + point[0];
            if (kind == 2) o = o - V(a);
            if (kind == 3) o = point.back() * o;
        }
        return out;
    }
};
inline ev::Ev reference_loss(const Config &k, const Vector &x, const Correction &pc = {})
{
    using ev::Ev;
    Ev sum(0.);
    for (std::size_t i = 0; i < k.X.size(); ++i) {
        std::vector<Ev> p, y;
        for (double v : k.X[i]) p.push_back(Ev(v));
        for (double v : k.Y[i]) y.push_back(Ev(v));
        const auto out = pc.apply(outputs<Ev>(k, x, k.X[i]), p);
        sum = sum + loss_ref(out, y, k.ce);
    }
    return sum / Ev(static_cast<double>(k.X.size()));
}
// Moderate values at every point.
inline bool tame_candidate(const Config &k, const Vector &x, double cap)
{
    for (auto &p : k.X) {
        std::vector<double> in(p);
        in.insert(in.end(), x.begin(), x.begin() + k.s.n_eph);
        if (!tame(k.s, genes(k, x), in, cap)) return false;
    }
    return true;
}
} // namespace cgp
#endif
