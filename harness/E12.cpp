// E12: random programs and mutations are drawn evenly.
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <dcgp/expression_weighted.hpp>

#include <net.hpp>
#include <stat.hpp>

using namespace cgp;

static const std::vector<std::string> POOL = {"sum", "diff", "mul", "sin", "cos", "inv_sum", "tanh"};
static const std::vector<std::string> ACTIVATIONS = {"sig", "tanh", "ReLu", "ELU", "ISRU", "sum"};
using Counts = std::vector<double>;

static Shape small_shape(Gen &g)
{
    return shape(g, POOL, Limits{3, 2, 3, 3, 3, 3, 3});
}
// Chromosomes of expressions built with one seed after the other.
static void initial(Gen &g, Case &c)
{
    Shape s = small_shape(g);
    Chrom lb, ub;
    s.bounds(lb, ub);
    const unsigned n = 3000;
    const unsigned base = g.flip() ? g.u(0, 1000) : static_cast<unsigned>(g.raw(0xffffffffu));
    const unsigned stride = g.flip() ? 1 : g.pick(std::vector<unsigned>{2, 7, 1000, 65536, 1000003});
    const unsigned cls = g.u(0, 2);
    static const char *NAMES[] = {"expression", "expression_weighted", "expression_ann"};
    if (cls == 2) {
        s.n_eph = 0;
        s.bounds(lb, ub);
        for (auto &k : s.kernels) k = ACTIVATIONS[static_cast<std::size_t>(&k - s.kernels.data()) % ACTIVATIONS.size()];
    }
    if (cls == 1) {
        s.n_eph = 0;
        s.bounds(lb, ub);
    }
    c.label(NAMES[cls]);
    c.note(NAMES[cls], " of ", s, " with seeds ", base, " + k ", stride);
    dcgp::kernel_set<double> ks(s.kernels);
    const auto f = ks();
    std::vector<Counts> seen;
    for (std::size_t i = 0; i < lb.size(); ++i) seen.emplace_back(ub[i] - lb[i] + 1, 0.);
    // one pair of genes together
    const unsigned p = g.u(0, static_cast<unsigned>(lb.size()) - 1), q = g.u(0, static_cast<unsigned>(lb.size()) - 1);
    Counts pair(seen[p].size() * seen[q].size(), 0.);
    for (unsigned k = 0; k < n; ++k) {
        s.seed = base + k * stride;
        Chrom x;
        if (cls == 0) x = build<double>(s).get();
        if (cls == 1) x = dcgp::expression_weighted<double>(s.n, s.m, s.r, s.c, s.l, s.arity, f, s.seed).get();
        if (cls == 2) x = dcgp::expression_ann(s.n, s.m, s.r, s.c, s.l, s.arity, f, s.seed).get();
        c.require(x.size() == lb.size(), "length", "the chromosome has ", x.size(), " genes");
        for (std::size_t i = 0; i < x.size(); ++i) {
            c.require(x[i] >= lb[i] && x[i] <= ub[i], "bounds", "gene ", i, " is ", x[i], " with seed ", s.seed);
            ++seen[i][x[i] - lb[i]];
        }
        ++pair[(x[p] - lb[p]) * seen[q].size() + x[q] - lb[q]];
    }
    for (std::size_t i = 0; i < lb.size(); ++i) c.require(chi::even(seen[i]) > chi::tiny, "initial gene", "gene ", i, " from ", lb[i], " to ", ub[i], " takes its values ", seen[i], " times");
    if (p != q) c.require(chi::even(pair) > chi::tiny, "initial pair", "genes ", p, " and ", q, " take their pairs of values ", pair, " times");
    c.nontrivial(std::any_of(seen.begin(), seen.end(), [](auto &v) { return v.size() > 1; }));
}

enum { ONE, RANDOM, INACTIVE, ACTIVE, FUNCTION, CONNECTION, OUTPUT };
static const char *NAMES[] = {"mutate", "mutate_random", "mutate_inactive", "mutate_active", "mutate_active_fgene", "mutate_active_cgene", "mutate_ogene"};

template <typename E>
static void mutate(E &e, int kind, unsigned gene, unsigned N)
{
    switch (kind) {
        case ONE:
            return e.mutate(gene);
        case RANDOM:
            return e.mutate_random(N);
        case INACTIVE:
            return e.mutate_inactive(N);
        case ACTIVE:
            return e.mutate_active(N);
        case FUNCTION:
            return e.mutate_active_fgene(N);
        case CONNECTION:
            return e.mutate_active_cgene(N);
        default:
            return e.mutate_ogene(N);
    }
}
// One gene: which, and what it becomes.
static void single(Gen &g, Case &c)
{
    const Shape s = small_shape(g);
    Chrom lb, ub;
    s.bounds(lb, ub);
    auto e = build<double>(s);
    const Chrom x = chromosome(g, s);
    const auto cls = s.classes();
    const int kind = static_cast<int>(g.u(0, 6));
    const unsigned gene = g.u(0, s.size() - 1);
    const auto A = reachable_genes(s, x);
    c.label(NAMES[kind]);
    c.note(NAMES[kind], kind == ONE ? " of gene " + std::to_string(gene) : "", " of ", s, ": x=", x);
    std::map<unsigned, Counts> seen;
    double changes = 0;
    for (unsigned i = 0; i < s.size(); ++i) {
        const bool could = kind == ONE ? i == gene : kind == RANDOM || (kind == INACTIVE && !A.count(i)) || (kind == ACTIVE && A.count(i))
                           || (kind == FUNCTION && A.count(i) && cls[i] == 'f') || (kind == CONNECTION && A.count(i) && cls[i] == 'c') || (kind == OUTPUT && cls[i] == 'o');
        if (could && lb[i] < ub[i]) seen[i] = Counts(ub[i] - lb[i] + 1, 0.);
    }
    const unsigned n = 8000;
    for (unsigned k = 0; k < n; ++k) {
        e.set(x);
        mutate(e, kind, gene, 1);
        const Chrom y = e.get();
        for (unsigned i = 0; i < s.size(); ++i) {
            if (x[i] == y[i]) continue;
            c.require(seen.count(i) && y[i] >= lb[i] && y[i] <= ub[i], "class", NAMES[kind], " made gene ", i, " ", y[i]);
            ++seen[i][y[i] - lb[i]];
            ++changes;
        }
    }
    // every other value alike
    Counts times;
    std::map<unsigned, Counts> by_node;
    for (auto &[i, v] : seen) {
        Counts w = v;
        w.erase(w.begin() + static_cast<long>(x[i] - lb[i]));
        double t = 0;
        for (double z : w) t += z;
        times.push_back(t);
        if (kind == CONNECTION) {
            unsigned node = 0;
            for (unsigned k = s.in(); k < s.nodes(); ++k)
                if (s.gene(k) < i) node = k;
            by_node[node].push_back(t);
        }
        c.require(chi::even(w) > chi::tiny, "value", NAMES[kind], " gives gene ", i, ", which is ", x[i], " of [", lb[i], ",", ub[i], "], its other values ", w, " times");
    }
    // every gene of its kind alike; of the connections, those of one node
    if (kind == CONNECTION) {
        for (auto &[node, t] : by_node) c.require(chi::even(t) > chi::tiny, "gene", NAMES[kind], " changes the connections of node ", node, " ", t, " times");
    } else if (!times.empty()) {
        c.require(chi::even(times) > chi::tiny, "gene", NAMES[kind], " changes the genes it may change ", times, " times");
    }
    c.nontrivial(changes > 0 && (times.size() > 1 || seen.begin()->second.size() > 2));
}
// Many genes at once: as many draws, each by itself.
static void several(Gen &g, Case &c)
{
    Shape s = small_shape(g);
    Chrom lb, ub;
    s.bounds(lb, ub);
    auto e = build<double>(s);
    const Chrom x = chromosome(g, s);
    const auto cls = s.classes();
    static const std::vector<int> kinds = {RANDOM, ACTIVE, FUNCTION, OUTPUT};
    const int kind = g.pick(kinds);
    const unsigned N = g.u(2, 8);
    const auto A = reachable_genes(s, x);
    std::vector<unsigned> may;
    for (unsigned i = 0; i < s.size(); ++i)
        if (kind == RANDOM || (kind == ACTIVE && A.count(i)) || (kind == FUNCTION && A.count(i) && cls[i] == 'f') || (kind == OUTPUT && cls[i] == 'o')) may.push_back(i);
    if (kind == OUTPUT && s.m == 1) may.clear(); // one output is mutated once, however many are asked for
    c.label(NAMES[kind]);
    c.note(NAMES[kind], " of ", N, " genes of ", s, ": x=", x);
    if (may.empty()) return c.nontrivial(false);
    std::mt19937 rng(static_cast<unsigned>(g.raw(0xffffffffu)));
    auto upto = [&](unsigned k) { return static_cast<unsigned>(((static_cast<unsigned long long>(rng()) << 32) | rng()) % k); };
    // how many genes differ, and whether two of them do together
    std::map<unsigned, double> got, want, got2, want2;
    const unsigned p = may[upto(static_cast<unsigned>(may.size()))], q = may[upto(static_cast<unsigned>(may.size()))];
    auto count = [&](const Chrom &y, auto &number, auto &pair) {
        unsigned d = 0;
        for (unsigned i = 0; i < s.size(); ++i) d += x[i] != y[i];
        ++number[d];
        ++pair[2 * (x[p] != y[p]) + (x[q] != y[q])];
        return d;
    };
    unsigned most = 0;
    for (unsigned k = 0; k < 4000; ++k) {
        e.set(x);
        mutate(e, kind, 0, N);
        most = std::max(most, count(e.get(), got, got2));
        Chrom y = x;
        for (unsigned j = 0; j < N; ++j) {
            const unsigned i = may[upto(static_cast<unsigned>(may.size()))];
            if (lb[i] == ub[i]) continue;
            const unsigned v = lb[i] + upto(ub[i] - lb[i]);
            y[i] = v < y[i] ? v : v + 1;
        }
        count(y, want, want2);
    }
    auto show = [](auto &m) {
        std::ostringstream ss;
        for (auto &[k, v] : m) ss << k << ": " << v << ", ";
        return ss.str();
    };
    c.require(chi::alike(got, want) > chi::tiny, "number", NAMES[kind], " of ", N, " genes changes numbers of genes ", show(got), "instead of ", show(want));
    c.require(chi::alike(got2, want2) > chi::tiny, "pair", NAMES[kind], " of ", N, " genes changes genes ", p, " and ", q, " (none, the second, the first, both) ", show(got2), "instead of ", show(want2));
    c.nontrivial(most > 1);
}
// The order of the points in an epoch.
static void shuffles(Gen &g, Case &c)
{
    const unsigned points = g.u(2, 5), n = 4000;
    dcgp::kernel_set<double> ks({"sum"});
    dcgp::expression_ann e(1, 1, 1, 1, 1, {1u}, ks(), 1u);
    std::vector<std::vector<double>> X;
    for (unsigned i = 0; i < points; ++i) X.push_back({static_cast<double>(i)});
    const bool again = g.flip();
    const unsigned batch = g.u(1, points);
    c.note(points, " points in batches of ", batch, again ? ", each time from the order of the last" : "");
    std::map<std::vector<std::vector<double>>, unsigned> order;
    auto P = X;
    do order.insert({P, static_cast<unsigned>(order.size())});
    while (std::next_permutation(P.begin(), P.end()));
    Counts seen(order.size(), 0.);
    auto Y = X;
    P = X;
    for (unsigned k = 0; k < n; ++k) {
        if (!again) P = Y = X;
        e.sgd(P, Y, 1e-9, batch, "MSE", 0u, true);
        c.require(P == Y && order.count(P), "order", "after an epoch the points are ", P, " and the labels ", Y);
        ++seen[order[P]];
    }
    c.require(chi::even(seen) > chi::tiny, "shuffle", "the orders of ", points, " points occur ", seen, " times");
    c.nontrivial(points > 2);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "E12";
    p.rule = "random shapes; the chromosomes of 3000 expressions (weighted, networks too) built with seeds in arithmetic progression, 8000 mutations of one gene and 4000 of several "
             "of a random chromosome, and the orders of 4000 epochs, counted and compared with even choices (chi-square); non-trivial: there was something to choose";
    p.subs = {{"initial", 500, 12000, initial}, {"single", 1500, 40000, single}, {"several", 1000, 25000, several}, {"shuffles", 40, 1000, shuffles}};
    p.assumptions = {"a bias is reported if even choices show as much less than once in 1e13: smaller ones pass",
                     "the order of sgd comes from std::random_device: a case of \"shuffles\" is not exactly repeatable"};
    p.case_cpu_s = 60;
    return pbt::run(argc, argv, p);
}
