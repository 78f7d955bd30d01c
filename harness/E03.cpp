// E03: active nodes and genes are exactly those the outputs depend on.
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>
#include <anyexpr.hpp>

#include <cstring>

using namespace cgp;
using Ex = dcgp::expression<double>;

// The numbers after a label of the printed summary.
static bool numbers_after(const std::string &text, const std::string &label, std::vector<unsigned> &v)
{
    const auto i = text.find(label);
    if (i == std::string::npos) return false;
    v.clear();
    bool in = false;
    for (auto k = i + label.size(); k < text.size() && text[k] != '\n'; ++k) {
        if (std::isdigit(static_cast<unsigned char>(text[k]))) {
            if (!in) v.push_back(0);
            v.back() = v.back() * 10 + static_cast<unsigned>(text[k] - '0');
            in = true;
        } else {
            in = false;
        }
    }
    return true;
}
// The names after it.
static bool names_after(const std::string &text, const std::string &label, std::vector<std::string> &v)
{
    const auto i = text.find(label);
    if (i == std::string::npos) return false;
    v.clear();
    bool in = false;
    for (auto k = i + label.size(); k < text.size() && text[k] != '\n'; ++k) {
        const char ch = text[k];
        if (std::strchr("[], \t", ch)) {
            in = false;
        } else {
            if (!in) v.emplace_back();
            v.back() += ch;
            in = true;
        }
    }
    return true;
}
template <typename E>
static void check_text(Case &c, const E &e, const std::string &when)
{
    const std::string t = text_of(e);
    std::vector<std::string> functions;
    for (auto &f : e.get_f()) functions.push_back(f.get_name());
    // long lists are abbreviated
    const auto named = [&](const char *label, std::vector<std::string> want) {
        std::vector<std::string> v;
        c.require(names_after(t, label, v), "summary", when, ": the summary has no ", label);
        if (want.size() > 6) {
            want.resize(5);
            v.resize(std::min<std::size_t>(v.size(), 5));
        }
        c.require(v == want, "summary", when, ": the summary says ", label, " ", v, " instead of ", want);
    };
    const auto valued = [&](const char *label, const std::vector<double> &want) {
        std::vector<std::string> v;
        c.require(names_after(t, label, v), "summary", when, ": the summary has no ", label);
        bool ok = v.size() == want.size() || want.size() > 6;
        for (std::size_t i = 0; ok && i < want.size() && (i < 5 || want.size() <= 6); ++i) {
            char *end = nullptr;
            ok = i < v.size() && std::abs(std::strtod(v[i].c_str(), &end) - want[i]) <= 1e-5 * std::abs(want[i]) && *end == 0;
        }
        c.require(ok, "summary", when, ": the summary says ", label, " ", v, " instead of ", want);
    };
    named("Function set:", functions);
    if constexpr (is_plain<E>) {
        named("Ephemeral constants names:", e.get_eph_symb());
        valued("Ephemeral constants values:", e.get_eph_val());
    } else {
        valued("Weights:", e.get_weights());
    }
    if constexpr (is_net<E>) valued("Biases:", e.get_biases());
    std::vector<std::pair<const char *, std::vector<unsigned>>> lines = {
        {"Active nodes:", e.get_active_nodes()}, {"Active genes:", e.get_active_genes()}, {"Current expression (encoded):", e.get()},
        {"Basis function arity:", e.get_arity()}, {"Resulting lower bounds:", e.get_lb()}, {"Resulting upper bounds:", e.get_ub()}};
    if (is_plain<E>) lines.push_back({"Start of the gene expressing the node:", e.get_gene_idx()});
    for (auto &l : lines) {
        std::vector<unsigned> v;
        c.require(numbers_after(t, l.first, v), "summary", when, ": the summary has no ", l.first);
        // long lists are abbreviated
        auto want = l.second;
        if (want.size() > 6) {
            want.resize(5);
            v.resize(std::min<std::size_t>(v.size(), 5));
        }
        c.require(v == want, "summary", when, ": the summary says ", l.first, " ", v, " instead of ", l.second);
    }
    std::vector<std::pair<const char *, unsigned>> nums = {{"Number of inputs:", e.get_n()}, {"Number of outputs:", e.get_m()}, {"Number of rows:", e.get_r()},
                                                      {"Number of columns:", e.get_c()}, {"Number of levels-back allowed:", e.get_l()}};
    if constexpr (is_plain<E>) nums.push_back({"Number of ephemeral constants:", static_cast<unsigned>(e.get_eph_val().size())});
    for (auto &l : nums) {
        std::vector<unsigned> v;
        c.require(numbers_after(t, l.first, v) && v == std::vector<unsigned>{l.second}, "summary", when, ": the summary says ", l.first, " ", v, " instead of ", l.second);
    }
}

static void history(Gen &g, Case &c)
{
    const Shape s = shape(g, {"sum", "diff", "mul", "sin", "pdiv", "inv_sum"}, g.chance(1, 10) ? Limits{5, 4, 6, 7, 14, 5, 5} : Limits{});
    Ex e = build<double>(s);
    Ex other = e;
    c.note(s, ":");
    const unsigned n = g.small(1, 20);
    c.nontrivial(n > 2 && s.c > 1);
    const unsigned size = s.size();
    std::set<unsigned> seen_inactive;
    for (unsigned k = 0; k < n; ++k) {
        const unsigned N = g.chance(1, 6) ? g.u(0, 30) : g.u(0, 4);
        switch (g.raw(14)) {
            case 0:
                e.set(chromosome(g, s));
                c.trace(" set");
                break;
            case 1: {
                const auto x = chromosome(g, s);
                std::vector<double> d(x.begin(), x.end());
                e.set_from_range(d.begin(), d.end());
                c.trace(" set_from_range");
                break;
            }
            case 2: {
                const unsigned i = g.u(0, size - 1);
                e.mutate(i);
                c.trace(" mutate ", i);
                break;
            }
            case 3: {
                std::vector<unsigned> v;
                for (unsigned q = 0; q < N; ++q) v.push_back(g.u(0, size - 1));
                e.mutate(v);
                c.trace(" mutate ", v);
                break;
            }
            case 4:
                e.mutate_random(N);
                c.trace(" mutate_random ", N);
                break;
            case 5:
                e.mutate_inactive(N);
                c.trace(" mutate_inactive ", N);
                break;
            case 6:
                e.mutate_active(N);
                c.trace(" mutate_active ", N);
                break;
            case 7:
                e.mutate_active_fgene(N);
                c.trace(" mutate_active_fgene ", N);
                break;
            case 8:
                e.mutate_active_cgene(N);
                c.trace(" mutate_active_cgene ", N);
                break;
            case 9:
                e.mutate_ogene(N);
                c.trace(" mutate_ogene ", N);
                break;
            case 10:
                e.set_f_gene(g.u(s.in(), s.nodes() - 1), g.u(0, static_cast<unsigned>(s.kernels.size()) - 1));
                c.trace(" set_f_gene");
                break;
            case 11:
                std::swap(e, other);
                c.trace(" swap");
                break;
            case 12:
                other = e;
                c.trace(" copy");
                break;
            case 13: {
                std::stringstream ss;
                {
                    boost::archive::binary_oarchive o(ss);
                    o << e;
                }
                boost::archive::binary_iarchive i(ss);
                i >> other;
                std::swap(e, other);
                c.trace(" archive");
                break;
            }
            default: {
                bool threw = false;
                try {
                    e.mutate(std::vector<unsigned>{g.u(0, size - 1), size});
                } catch (const std::invalid_argument &) {
                    threw = true;
                }
                c.trace(" rejected");
                c.require(threw, "accepted", "an index out of bounds was accepted");
            }
        }
        c.trace(";");
        check_structure(c, e, s, nullptr, "after an operation");
        check_active(c, e, s, "after an operation");
        check_active(c, other, s, "after an operation, the other expression");
        const auto nodes = reachable(s, e.get());
        const auto genes = reachable_genes(s, e.get());
        for (unsigned q = 0; q < s.nodes() + 2; ++q)
            c.require(e.is_active_node(q) == (nodes.count(q) > 0), "is-active-node", "node ", q, " is reported ", e.is_active_node(q), " with chromosome ", e.get());
        for (unsigned q = 0; q < size + 2; ++q)
            c.require(e.is_active_gene(q) == (genes.count(q) > 0), "is-active-gene", "gene ", q, " is reported ", e.is_active_gene(q), " with chromosome ", e.get());
        if (g.chance(1, 4)) check_text(c, e, "after an operation");
    }
    // No inactive gene matters.
    Chrom lb, ub;
    s.bounds(lb, ub);
    const auto genes = reachable_genes(s, e.get());
    std::vector<double> in;
    for (unsigned i = 0; i < s.n; ++i) in.push_back(g.real(-2, 2));
    const auto out = e(in);
    Chrom y = e.get();
    unsigned changed = 0;
    for (unsigned q = 0; q < size; ++q) {
        if (genes.count(q) || lb[q] == ub[q]) continue;
        y[q] = lb[q] + static_cast<unsigned>(g.raw(ub[q] - lb[q]));
        ++changed;
    }
    if (changed) {
        Ex f = e;
        f.set(y);
        const auto out2 = f(in);
        for (unsigned j = 0; j < s.m; ++j)
            c.require(same(out[j], out2[j]), "inactive-matters", "output ", j, " is ", out[j], " with chromosome ", e.get(), " and ", out2[j], " with inactive genes changed: ", y);
        c.label("inactive genes changed");
    }
}

// The printed summaries of the other classes.
template <typename E>
static void summary(Gen &g, Case &c)
{
    const Shape s = shape(g, pool_of<E>(), Limits{4, is_plain<E> ? 8u : 0u, 4, 3, 4, 3, 8});
    E e = make<E>(s);
    c.note(s, ":");
    check_text(c, e, "when built");
    const unsigned ops = g.u(1, 6);
    for (unsigned i = 0; i < ops; ++i) {
        random_op(g, c, s, e);
        check_text(c, e, "after an operation");
    }
    c.nontrivial();
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "E03";
    p.rule = "random shapes and histories of up to twenty mutations of every kind, settings, copies, swaps, archives and rejected requests; after each, active nodes and genes "
             "(listed, queried one by one, and printed) against reachability from the outputs in the chromosome, and values when all inactive genes are redrawn; "
             "non-trivial: more than one column and more than two operations (histories), any case (summaries); counted distinct by choice sequence";
    p.subs = {{"history", 50000, 1000000, history},
              {"summary", 3000, 50000, summary<Ex>},
              {"summary-weighted", 3000, 50000, summary<dcgp::expression_weighted<double>>},
              {"summary-network", 3000, 50000, summary<dcgp::expression_ann>}};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
