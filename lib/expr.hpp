// Building expressions from the reference model, and looking at them.
#ifndef VERIF_EXPR_HPP
#define VERIF_EXPR_HPP
#include <dcgp/expression.hpp>

#include <cgp.hpp>

namespace cgp
{
inline bool same(double a, double b)
{
    return a == b || (std::isnan(a) && std::isnan(b));
}
template <typename T>
inline dcgp::expression<T> build(const Shape &s)
{
    dcgp::kernel_set<T> ks(s.kernels);
    if (s.uniform) return dcgp::expression<T>(s.n, s.m, s.r, s.c, s.l, s.arity[0], ks(), s.n_eph, s.seed);
    return dcgp::expression<T>(s.n, s.m, s.r, s.c, s.l, s.arity, ks(), s.n_eph, s.seed);
}
template <typename T>
inline std::vector<double> constants(const dcgp::expression<T> &e);
template <>
inline std::vector<double> constants(const dcgp::expression<double> &e)
{
    return e.get_eph_val();
}
template <>
inline std::vector<double> constants(const dcgp::expression<audi::gdual_d> &e)
{
    std::vector<double> r;
    for (auto &x : e.get_eph_val()) r.push_back(x.constant_cf());
    return r;
}
template <>
inline std::vector<double> constants(const dcgp::expression<audi::gdual_v> &e)
{
    std::vector<double> r;
    for (auto &x : e.get_eph_val()) r.push_back(x.constant_cf()[0]);
    return r;
}
template <typename E>
inline std::string text_of(const E &e)
{
    std::ostringstream ss;
    ss.precision(17);
    ss << e;
    return ss.str();
}
// Everything about an expression that can be seen, as text.
template <typename T>
inline std::string snapshot(const dcgp::expression<T> &e)
{
    std::ostringstream ss;
    ss.precision(17);
    ss << e.get_n() << ' ' << e.get_m() << ' ' << e.get_r() << ' ' << e.get_c() << ' ' << e.get_l() << " arity ";
    Case::put(ss, e.get_arity());
    ss << " lb ";
    for (auto v : e.get_lb()) ss << v << ' ';
    ss << " ub ";
    for (auto v : e.get_ub()) ss << v << ' ';
    ss << " x ";
    for (auto v : e.get()) ss << v << ' ';
    ss << " nodes ";
    for (auto v : e.get_active_nodes()) ss << v << ' ';
    ss << " genes ";
    for (auto v : e.get_active_genes()) ss << v << ' ';
    ss << " idx ";
    for (auto v : e.get_gene_idx()) ss << v << ' ';
    ss << " eph ";
    for (auto v : constants(e)) ss << v << ' ';
    for (auto &v : e.get_eph_symb()) ss << v << ' ';
    ss << " f ";
    for (auto &k : e.get_f()) ss << k.get_name() << ' ';
    return ss.str();
}
// The structure of the expression is that of the model.
template <typename T>
inline void check_structure(Case &c, const dcgp::expression<T> &e, const Shape &s, const Chrom *x, const std::string &when)
{
    c.require(e.get_n() == s.in() && e.get_m() == s.m && e.get_r() == s.r && e.get_c() == s.c && e.get_l() == s.l, "sizes", when, ": sizes are ", e.get_n(), ",",
              e.get_m(), ",", e.get_r(), ",", e.get_c(), ",", e.get_l(), " for ", s);
    c.require(e.get_arity() == s.arity, "arity", when, ": arities are ", e.get_arity(), " for ", s);
    Chrom lb, ub;
    s.bounds(lb, ub);
    c.require(e.get_lb() == lb, "lower-bounds", when, ": lower bounds are ", e.get_lb(), ", expected ", lb);
    c.require(e.get_ub() == ub, "upper-bounds", when, ": upper bounds are ", e.get_ub(), ", expected ", ub);
    c.require(e.get().size() == lb.size(), "length", when, ": the chromosome has ", e.get().size(), " genes, expected ", lb.size());
    for (std::size_t i = 0; i < lb.size(); ++i) {
        c.require(e.get()[i] >= lb[i] && e.get()[i] <= ub[i], "gene-bounds", when, ": gene ", i, " is ", e.get()[i], " out of [", lb[i], ",", ub[i], "]");
    }
    if (x) c.require(e.get() == *x, "chromosome", when, ": the chromosome is ", e.get(), ", expected ", *x);
    c.require(e.get_f().size() == s.kernels.size(), "kernels", when, ": ", e.get_f().size(), " kernels");
    for (std::size_t i = 0; i < s.kernels.size(); ++i)
        c.require(e.get_f()[i].get_name() == s.kernels[i], "kernels", when, ": kernel ", i, " is ", e.get_f()[i].get_name(), ", expected ", s.kernels[i]);
    const auto &idx = e.get_gene_idx();
    c.require(idx.size() == s.nodes(), "gene-index", when, ": ", idx.size(), " gene indices for ", s.nodes(), " nodes");
    for (unsigned k = s.in(); k < s.nodes(); ++k) {
        c.require(idx[k] == s.gene(k), "gene-index", when, ": the genes of node ", k, " start at ", idx[k], ", expected ", s.gene(k));
        c.require(e.get_arity(k) == s.node_arity(k), "node-arity", when, ": the arity of node ", k, " is ", e.get_arity(k));
    }
}
// Active nodes and genes are those the outputs depend on.
template <typename T>
inline void check_active(Case &c, const dcgp::expression<T> &e, const Shape &s, const std::string &when)
{
    const auto n = reachable(s, e.get());
    const auto g = reachable_genes(s, e.get());
    const auto &an = e.get_active_nodes();
    const auto &ag = e.get_active_genes();
    c.require(std::set<unsigned>(an.begin(), an.end()) == n && an.size() == n.size(), "active-nodes", when, ": active nodes are ", an, ", the outputs depend on ",
              std::vector<unsigned>(n.begin(), n.end()), " with chromosome ", e.get());
    c.require(std::set<unsigned>(ag.begin(), ag.end()) == g && ag.size() == g.size(), "active-genes", when, ": active genes are ", ag, ", expected ",
              std::vector<unsigned>(g.begin(), g.end()), " with chromosome ", e.get());
}
} // namespace cgp
#endif
