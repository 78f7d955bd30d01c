// Reference network: the graph with weights and biases.
#ifndef VERIF_NET_HPP
#define VERIF_NET_HPP
#include <anyexpr.hpp>
#include <lossref.hpp>

namespace cgp
{
struct Params {
    std::vector<double> w, b; // in node order, then input order
    // Index of the weight of a node's input.
    static std::size_t index(const Shape &s, unsigned node, unsigned j)
    {
        return s.gene(node) - (node - s.in()) + j;
    }
};
inline std::size_t n_weights(const Shape &s)
{
    std::size_t n = 0;
    for (unsigned k = s.in(); k < s.nodes(); ++k) n += s.node_arity(k);
    return n;
}
template <typename V>
inline std::vector<V> network(const Shape &s, const Chrom &x, const std::vector<V> &in, const std::vector<V> &w, const std::vector<V> &b)
{
    return evaluate<V>(s, x, in, [&](unsigned f, unsigned node, const std::vector<V> &a) {
        auto z = a;
        for (unsigned j = 0; j < z.size(); ++j) z[j] = z[j] * w[Params::index(s, node, j)];
        z[0] = z[0] + b[node - s.in()];
        return ev::ref_kernel(s.kernels[f], z);
    });
}
template <typename V>
inline std::vector<V> as(const std::vector<double> &v)
{
    std::vector<V> r;
    for (double x : v) r.push_back(V(x));
    return r;
}
inline bool tame_network(const Shape &s, const Chrom &x, const std::vector<double> &in, const Params &p, double cap = 1e30)
{
    bool ok = true;
    evaluate<ev::Ev>(s, x, as<ev::Ev>(in), [&](unsigned f, unsigned node, const std::vector<ev::Ev> &a) {
        auto z = a;
        for (unsigned j = 0; j < z.size(); ++j) z[j] = z[j] * ev::Ev(p.w[Params::index(s, node, j)]);
        z[0] = z[0] + ev::Ev(p.b[node - s.in()]);
        const ev::Ev r = ev::ref_kernel(s.kernels[f], z);
        ok = ok && !r.bad && std::abs(r.v) < cap && r.e < 1e-9L * (1 + std::abs(r.v));
        return r;
    });
    return ok;
}
inline Params params(Gen &g, const Shape &s)
{
    Params p;
    const bool wild = g.chance(1, 4), unit = g.chance(1, 6);
    for (std::size_t i = n_weights(s); i > 0; --i) p.w.push_back(unit ? 1. : g.real(wild ? -5 : -1.5, wild ? 5 : 1.5));
    for (unsigned i = s.r * s.c; i > 0; --i) p.b.push_back(unit ? 0. : g.real(wild ? -5 : -1, wild ? 5 : 1));
    return p;
}
// Shapes of networks: small irregular ones, and layered ones.
inline Shape net_shape(Gen &g)
{
    Shape s = shape(g, ev::activations(), Limits{4, 0, 3, 4, 4, 4, 5});
    if (g.chance(1, 3)) { // levels-back one: layers
        s.l = 1;
    }
    return s;
}
using Data = std::vector<std::vector<double>>;
inline Data data(Gen &g, unsigned points, unsigned dim, double span, bool classes)
{
    Data d;
    for (unsigned i = 0; i < points; ++i) {
        d.emplace_back();
        const unsigned hot = static_cast<unsigned>(g.raw(dim - 1));
        for (unsigned j = 0; j < dim; ++j) d.back().push_back(classes ? (j == hot ? 1. : 0.) : g.real(-span, span));
    }
    return d;
}
inline std::vector<unsigned> divisors(unsigned n)
{
    std::vector<unsigned> d;
    for (unsigned i = 1; i <= n; ++i)
        if (n % i == 0) d.push_back(i);
    return d;
}
} // namespace cgp
#endif
