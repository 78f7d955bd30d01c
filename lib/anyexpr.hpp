// Expressions of every class, treated alike: building, random operations, and everything observable.
#ifndef VERIF_ANYEXPR_HPP
#define VERIF_ANYEXPR_HPP
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>

#include <expr.hpp>
#include <gd.hpp>

namespace cgp
{
template <typename E>
struct traits;
template <typename T>
struct traits<dcgp::expression<T>> {
    using value = T;
    static constexpr int kind = 0;
};
template <typename T>
struct traits<dcgp::expression_weighted<T>> {
    using value = T;
    static constexpr int kind = 1;
};
template <>
struct traits<dcgp::expression_ann> {
    using value = double;
    static constexpr int kind = 2;
};
template <typename E>
using value_of = typename traits<E>::value;
template <typename E>
constexpr bool is_plain = traits<E>::kind == 0;
template <typename E>
constexpr bool is_weighted = traits<E>::kind == 1;
template <typename E>
constexpr bool is_net = traits<E>::kind == 2;
template <typename E>
inline const std::vector<std::string> &pool_of()
{
    static const auto taylor = [] {
        auto v = ev::catalogue();
        v.erase(std::find(v.begin(), v.end(), "pdiv")); // not there for Taylor numbers
        return v;
    }();
    return is_net<E> ? ev::activations() : std::is_same<value_of<E>, double>::value ? ev::catalogue() : taylor;
}
template <typename E>
inline E make(const Shape &s)
{
    dcgp::kernel_set<value_of<E>> ks(s.kernels);
    if constexpr (is_plain<E>) {
        return build<value_of<E>>(s);
    } else {
        if (s.uniform) return E(s.n, s.m, s.r, s.c, s.l, s.arity[0], ks(), s.seed);
        return E(s.n, s.m, s.r, s.c, s.l, s.arity, ks(), s.seed);
    }
}
template <typename T>
inline T number(Gen &g, double lo, double hi)
{
    const double v = g.real(lo, hi);
    if constexpr (std::is_same<T, double>::value)
        return v;
    else
        return g.flip() ? gd::var<T>({v}, "p", 1) : T(v);
}
template <typename T>
inline void show(std::ostream &os, const T &v)
{
    os << v << ' ';
}
template <typename E>
inline std::string whole(const E &e)
{
    std::ostringstream ss;
    ss.precision(17);
    ss << e.get_n() << ' ' << e.get_m() << ' ' << e.get_r() << ' ' << e.get_c() << ' ' << e.get_l() << " arity ";
    Case::put(ss, e.get_arity());
    for (auto *v : {&e.get_lb(), &e.get_ub(), &e.get(), &e.get_active_nodes(), &e.get_active_genes(), &e.get_gene_idx()}) {
        for (auto x : *v) ss << x << ' ';
        ss << '|';
    }
    for (auto &k : e.get_f()) ss << k.get_name() << ' ';
    ss << '|';
    if constexpr (is_plain<E>) {
        for (auto &v : e.get_eph_val()) show(ss, v);
        for (auto &v : e.get_eph_symb()) ss << v << ' ';
    } else {
        for (auto &v : e.get_weights()) show(ss, v);
    }
    if constexpr (is_net<E>) {
        ss << '|';
        for (auto v : e.get_biases()) ss << v << ' ';
        ss << '|' << e.n_active_weights() << ' ' << e.n_active_weights(true);
    }
    ss << '|' << e;
    return ss.str();
}
// An operation that changes the expression, drawn once and applied to one or two of them.
template <typename E>
inline std::function<void(E &)> draw_op(Gen &g, const Shape &s, std::string &name)
{
    using T = value_of<E>;
    switch (g.raw(10)) {
        case 0: {
            const unsigned n = g.u(0, 4);
            name = "mutate_random " + std::to_string(n);
            return [n](E &e) { e.mutate_random(n); };
        }
        case 1: {
            const unsigned n = g.u(0, 4);
            name = "mutate_active " + std::to_string(n);
            return [n](E &e) { e.mutate_active(n); };
        }
        case 2: {
            const unsigned n = g.u(0, 4);
            name = "mutate_active_fgene " + std::to_string(n);
            return [n](E &e) { e.mutate_active_fgene(n); };
        }
        case 3: {
            const unsigned n = g.u(0, 4);
            name = "mutate_ogene " + std::to_string(n);
            return [n](E &e) { e.mutate_ogene(n); };
        }
        case 4: {
            const unsigned i = static_cast<unsigned>(g.raw(s.size() - 1));
            name = "mutate gene " + std::to_string(i);
            return [i](E &e) { e.mutate(i); };
        }
        case 5: {
            std::vector<unsigned> v;
            for (unsigned k = g.u(0, 4); k > 0; --k) v.push_back(static_cast<unsigned>(g.raw(s.size() - 1)));
            name = "mutate genes";
            return [v](E &e) { e.mutate(v); };
        }
        case 6: {
            const auto x = chromosome(g, s);
            name = "set";
            return [x](E &e) { e.set(x); };
        }
        case 7: {
            const unsigned node = s.in() + static_cast<unsigned>(g.raw(s.r * s.c - 1)), k = static_cast<unsigned>(g.raw(s.kernels.size() - 1));
            name = "set_f_gene " + std::to_string(node) + "," + std::to_string(k);
            return [node, k](E &e) { e.set_f_gene(node, k); };
        }
        case 8: {
            const long seed = static_cast<long>(g.seed());
            name = "seed " + std::to_string(seed);
            return [seed](E &e) { e.seed(seed); };
        }
        case 9: {
            const unsigned n = g.u(0, 4);
            name = "mutate_active_cgene " + std::to_string(n);
            return [n](E &e) { e.mutate_active_cgene(n); };
        }
        default: {
            if constexpr (is_plain<E>) {
                std::vector<T> v;
                std::vector<std::string> names;
                for (unsigned i = 0; i < s.n_eph; ++i) {
                    v.push_back(number<T>(g, -3, 3));
                    names.push_back("k" + std::to_string(g.u(0, 9)) + "_" + std::to_string(i));
                }
                name = "constants";
                return [v, names](E &e) {
                    e.set_eph_val(v);
                    e.set_eph_symb(names);
                };
            } else {
                const unsigned node = s.in() + static_cast<unsigned>(g.raw(s.r * s.c - 1)), j = static_cast<unsigned>(g.raw(s.node_arity(node) - 1));
                const T w = number<T>(g, -2, 2);
                const double b = g.real(-2, 2);
                const bool bias = is_net<E> && g.flip();
                name = bias ? "bias" : "weight";
                return [=](E &e) {
                    if constexpr (is_net<E>) {
                        if (bias) {
                            e.set_bias(node - s.in(), b);
                            return;
                        }
                    }
                    e.set_weight(node, j, w);
                };
            }
        }
    }
}
template <typename E>
inline void random_op(Gen &g, Case &c, const Shape &s, E &e)
{
    std::string n;
    const auto f = draw_op<E>(g, s, n);
    c.trace(" ", n);
    f(e);
}
template <typename E>
inline void twin_op(Gen &g, Case &c, const Shape &s, E &a, E &b)
{
    std::string n;
    const auto f = draw_op<E>(g, s, n);
    c.trace(" both:", n);
    f(a);
    f(b);
}
template <typename T>
inline std::string printed(const std::vector<T> &v)
{
    std::ostringstream ss;
    ss.precision(17);
    for (auto &x : v) ss << x << ' ';
    return ss.str();
}
// Everything observable is the same, exactly.
template <typename E>
inline void same_expressions(Gen &g, Case &c, const Shape &s, const E &a, const E &b, const std::string &when)
{
    using T = value_of<E>;
    const auto x = whole(a), y = whole(b);
    if (x != y) {
        std::size_t i = 0;
        while (i < x.size() && i < y.size() && x[i] == y[i]) ++i;
        c.fail("state", when, ": they differ at ...", x.substr(i > 20 ? i - 20 : 0, 60), " and ...", y.substr(i > 20 ? i - 20 : 0, 60));
    }
    std::vector<T> in;
    std::vector<std::string> names;
    for (unsigned i = 0; i < s.n; ++i) {
        in.push_back(number<T>(g, -2, 2));
        names.push_back("x" + std::to_string(i));
    }
    auto nan_free = [](std::string t) { // the sign of a NaN is of no interest
        std::size_t p;
        while ((p = t.find("-nan")) != std::string::npos) t.erase(p, 1);
        return t;
    };
    // either may be the one evaluated last
    const bool swap = g.flip();
    const auto first = printed(swap ? b(in) : a(in)), second = printed(swap ? a(in) : b(in));
    c.require(nan_free(first) == nan_free(second), "values", when, ": values are ", first, " and ", second);
    c.require(a(names) == b(names), "texts", when, ": texts differ");
    std::vector<T> label;
    for (unsigned i = 0; i < s.m; ++i) label.push_back(T(g.real(-1, 1)));
    const auto mse = dcgp::expression<T>::loss_type::MSE;
    c.require(nan_free(printed(std::vector<T>{a.loss(in, label, mse)})) == nan_free(printed(std::vector<T>{b.loss(in, label, mse)})), "loss", when, ": losses differ");
    if constexpr (is_net<E>) {
        double l[2] = {0, 0};
        std::vector<double> w[2], h[2];
        for (int k = 0; k < 2; ++k) {
            const E &e = k ? b : a;
            w[k].assign(e.get_weights().size(), 0.);
            h[k].assign(e.get_biases().size(), 0.);
            e.d_loss(l[k], w[k], h[k], in, label, mse);
        }
        c.require(same(l[0], l[1]) && nan_free(printed(w[0])) == nan_free(printed(w[1])) && nan_free(printed(h[0])) == nan_free(printed(h[1])), "gradient", when,
                  ": gradients differ");
    }
}
} // namespace cgp
#endif
