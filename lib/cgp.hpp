// Reference model of Cartesian genetic programming: shapes, bounds, reachability and evaluation, written from the
// documentation alone; and generators of shapes, kernel lists and chromosomes.
#ifndef VERIF_CGP_HPP
#define VERIF_CGP_HPP
#include <algorithm>
#include <functional>
#include <set>
#include <string>
#include <vector>

#include <ev.hpp>
#include <pbt.hpp>

namespace cgp
{
using pbt::Case;
using pbt::Gen;
using Chrom = std::vector<unsigned>;

struct Shape {
    unsigned n = 1, n_eph = 0, m = 1, r = 1, c = 1, l = 1;
    std::vector<unsigned> arity; // one per column
    bool uniform = true;         // built with the constructor taking a single arity
    std::vector<std::string> kernels;
    unsigned seed = 0;

    unsigned in() const
    {
        return n + n_eph;
    }
    unsigned nodes() const
    {
        return in() + r * c;
    }
    unsigned col(unsigned node) const
    {
        return (node - in()) / r;
    }
    unsigned node_arity(unsigned node) const
    {
        return arity[col(node)];
    }
    // Index of the function gene of a node.
    unsigned gene(unsigned node) const
    {
        unsigned g = 0;
        for (unsigned k = in(); k < node; ++k) g += 1 + node_arity(k);
        return g;
    }
    unsigned size() const
    {
        return gene(nodes()) + m;
    }
    // The nodes something in column `column` (the outputs being in column c) may be connected to: [first, last].
    std::pair<unsigned, unsigned> reach(unsigned column) const
    {
        const unsigned last = in() + column * r - 1;
        const unsigned first = column >= l ? in() + (column - l) * r : 0;
        return {first, last};
    }
    void bounds(Chrom &lb, Chrom &ub) const
    {
        lb.clear();
        ub.clear();
        for (unsigned k = in(); k < nodes(); ++k) {
            lb.push_back(0);
            ub.push_back(static_cast<unsigned>(kernels.size()) - 1);
            for (unsigned j = 0; j < node_arity(k); ++j) {
                lb.push_back(reach(col(k)).first);
                ub.push_back(reach(col(k)).second);
            }
        }
        for (unsigned j = 0; j < m; ++j) {
            lb.push_back(reach(c).first);
            ub.push_back(reach(c).second);
        }
    }
    // 'f' function gene, 'c' connection gene, 'o' output gene
    std::string classes() const
    {
        std::string s;
        for (unsigned k = in(); k < nodes(); ++k) s += "f" + std::string(node_arity(k), 'c');
        return s + std::string(m, 'o');
    }
    friend std::ostream &operator<<(std::ostream &os, const Shape &s)
    {
        os << "n=" << s.n << " eph=" << s.n_eph << " m=" << s.m << " r=" << s.r << " c=" << s.c << " l=" << s.l << " arity=";
        pbt::Case::put(os, s.arity);
        os << (s.uniform ? "(uniform)" : "") << " kernels=";
        pbt::Case::put(os, s.kernels);
        return os << " seed=" << s.seed;
    }
};

struct Limits {
    unsigned n = 4, eph = 3, m = 4, r = 4, c = 6, arity = 4, kernels = 6;
};
inline Shape shape(Gen &g, const std::vector<std::string> &pool, Limits L = {})
{
    Shape s;
    s.n = g.u(1, L.n);
    s.n_eph = L.eph && g.chance(1, 2) ? g.u(1, L.eph) : 0;
    s.m = g.small(1, L.m);
    s.r = g.u(1, L.r);
    s.c = g.u(1, L.c);
    s.l = g.u(1, s.c + 2);
    s.uniform = g.flip();
    const unsigned a = g.u(1, L.arity);
    for (unsigned i = 0; i < s.c; ++i) s.arity.push_back(s.uniform ? a : g.u(1, L.arity));
    const unsigned k = g.u(1, L.kernels);
    for (unsigned i = 0; i < k; ++i) s.kernels.push_back(g.pick(pool));
    // a protected division needs two operands
    if (*std::min_element(s.arity.begin(), s.arity.end()) < 2) {
        for (auto &x : s.kernels)
            if (x == "pdiv") x = "diff";
    }
    s.seed = g.seed();
    return s;
}
inline Chrom chromosome(Gen &g, const Shape &s)
{
    Chrom lb, ub, x;
    s.bounds(lb, ub);
    const auto mode = g.raw(3);
    for (std::size_t i = 0; i < lb.size(); ++i) {
        switch (mode) {
            case 0:
                x.push_back(lb[i] + static_cast<unsigned>(g.raw(ub[i] - lb[i])));
                break;
            case 1: // as deep as can be
                x.push_back(g.chance(2, 3) ? ub[i] - static_cast<unsigned>(g.raw(std::min(ub[i] - lb[i], 1u))) : lb[i] + static_cast<unsigned>(g.raw(ub[i] - lb[i])));
                break;
            case 2:
                x.push_back(g.flip() ? ub[i] : lb[i]);
                break;
            default:
                x.push_back(g.chance(2, 3) ? lb[i] : lb[i] + static_cast<unsigned>(g.raw(ub[i] - lb[i])));
        }
    }
    return x;
}

// Nodes the outputs depend on.
inline std::set<unsigned> reachable(const Shape &s, const Chrom &x)
{
    std::set<unsigned> seen;
    std::vector<unsigned> todo(x.end() - s.m, x.end());
    while (!todo.empty()) {
        const unsigned k = todo.back();
        todo.pop_back();
        if (!seen.insert(k).second || k < s.in()) continue;
        const unsigned g = s.gene(k);
        for (unsigned j = 1; j <= s.node_arity(k); ++j) todo.push_back(x[g + j]);
    }
    return seen;
}
inline std::set<unsigned> reachable_genes(const Shape &s, const Chrom &x)
{
    std::set<unsigned> r;
    for (unsigned k : reachable(s, x)) {
        if (k < s.in()) continue;
        const unsigned g = s.gene(k);
        for (unsigned j = 0; j <= s.node_arity(k); ++j) r.insert(g + j);
    }
    for (unsigned j = 0; j < s.m; ++j) r.insert(s.size() - s.m + j);
    return r;
}

// Evaluation: node(kernel index, node id, operands) -> value.
template <typename V, typename F>
inline std::vector<V> evaluate(const Shape &s, const Chrom &x, const std::vector<V> &in, F node)
{
    std::vector<V> val(s.nodes());
    std::vector<char> done(s.nodes(), 0);
    std::function<void(unsigned)> need = [&](unsigned k) {
        if (done[k]) return;
        if (k < s.in()) {
            val[k] = in[k];
        } else {
            const unsigned g = s.gene(k);
            std::vector<V> a;
            for (unsigned j = 1; j <= s.node_arity(k); ++j) {
                need(x[g + j]);
                a.push_back(val[x[g + j]]);
            }
            val[k] = node(x[g], k, a);
        }
        done[k] = 1;
    };
    std::vector<V> out;
    for (unsigned j = 0; j < s.m; ++j) {
        const unsigned k = x[x.size() - s.m + j];
        need(k);
        out.push_back(val[k]);
    }
    return out;
}
// Evaluation with the documented kernels.
template <typename V>
inline std::vector<V> evaluate_documented(const Shape &s, const Chrom &x, const std::vector<V> &in)
{
    return evaluate<V>(s, x, in, [&](unsigned k, unsigned, const std::vector<V> &a) { return ev::ref_kernel(s.kernels[k], a); });
}
// No value on the way is undefined, ill-conditioned, or so large that its derivatives could overflow.
inline bool tame(const Shape &s, const Chrom &x, const std::vector<double> &in, double cap = 1e30)
{
    bool ok = true;
    std::vector<ev::Ev> v;
    for (double z : in) v.push_back(ev::Ev(z));
    evaluate<ev::Ev>(s, x, v, [&](unsigned k, unsigned, const std::vector<ev::Ev> &a) {
        const ev::Ev r = ev::ref_kernel(s.kernels[k], a);
        ok = ok && !r.bad && std::abs(r.v) < cap && r.e < 1e-9L * (1 + std::abs(r.v));
        return r;
    });
    return ok;
}
} // namespace cgp
#endif
