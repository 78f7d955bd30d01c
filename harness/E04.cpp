// E04: mutations change what they promise and nothing else.
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <expr.hpp>

using namespace cgp;
using Ex = dcgp::expression<double>;

static const std::vector<std::string> POOL = {"sum", "diff", "mul", "sin", "cos", "inv_sum", "tanh"};
static const char *NAMES[] = {"mutate", "mutate(list)", "mutate_random", "mutate_inactive", "mutate_active", "mutate_active_fgene", "mutate_active_cgene", "mutate_ogene"};

struct Before {
    Chrom x;
    std::set<unsigned> genes; // active
};
static std::set<unsigned> diff(const Chrom &a, const Chrom &b)
{
    std::set<unsigned> d;
    for (unsigned i = 0; i < a.size(); ++i)
        if (a[i] != b[i]) d.insert(i);
    return d;
}
static std::vector<unsigned> as_vec(const std::set<unsigned> &s)
{
    return {s.begin(), s.end()};
}

// One mutation and everything it promises. Returns the genes changed.
static std::set<unsigned> one(Gen &g, Case &c, Ex &e, const Shape &s, unsigned kind, unsigned N)
{
    Chrom lb, ub;
    s.bounds(lb, ub);
    const std::string cls = s.classes();
    const unsigned size = s.size();
    const Chrom x0 = e.get();
    const auto A = reachable_genes(s, x0);
    auto choice = [&](unsigned i) { return lb[i] < ub[i]; };
    std::vector<double> in;
    for (unsigned i = 0; i < s.n; ++i) in.push_back(0.37 + 0.61 * i);
    const auto out0 = e(in);
    const auto k0 = e.get_eph_val();
    std::vector<unsigned> list;
    unsigned idx = 0;
    switch (kind) {
        case 0:
            idx = g.u(0, size - 1);
            c.trace(" mutate ", idx);
            e.mutate(idx);
            break;
        case 1:
            for (unsigned q = 0; q < N; ++q) list.push_back(!list.empty() && g.chance(1, 4) ? list[g.raw(list.size() - 1)] : g.u(0, size - 1));
            c.trace(" mutate ", list);
            e.mutate(list);
            break;
        case 2:
            c.trace(" mutate_random ", N);
            e.mutate_random(N);
            break;
        case 3:
            c.trace(" mutate_inactive ", N);
            e.mutate_inactive(N);
            break;
        case 4:
            c.trace(" mutate_active ", N);
            e.mutate_active(N);
            break;
        case 5:
            c.trace(" mutate_active_fgene ", N);
            e.mutate_active_fgene(N);
            break;
        case 6:
            c.trace(" mutate_active_cgene ", N);
            e.mutate_active_cgene(N);
            break;
        default:
            c.trace(" mutate_ogene ", N);
            e.mutate_ogene(N);
    }
    c.trace(";");
    c.label(NAMES[kind]);
    const Chrom x1 = e.get();
    const std::string what = NAMES[kind];
    c.require(x1.size() == size, "length", what, ": the chromosome has now ", x1.size(), " genes");
    const auto D = diff(x0, x1);
    for (unsigned i = 0; i < size; ++i) c.require(x1[i] >= lb[i] && x1[i] <= ub[i], "bounds", what, ": gene ", i, " is ", x1[i], " out of [", lb[i], ",", ub[i], "]");
    const unsigned most = kind == 0 ? 1 : (kind == 1 ? static_cast<unsigned>(list.size()) : N);
    c.require(D.size() <= most, "too-many-" + what, what, " asked for ", most, " changed genes ", as_vec(D), " of ", x0);
    for (unsigned i : D) {
        bool ok = true;
        switch (kind) {
            case 0:
                ok = i == idx;
                break;
            case 1:
                ok = std::find(list.begin(), list.end(), i) != list.end();
                break;
            case 3:
                ok = !A.count(i);
                break;
            case 4:
                ok = A.count(i);
                break;
            case 5:
                ok = cls[i] == 'f' && A.count(i);
                break;
            case 6:
                ok = cls[i] == 'c' && (N > 1 || A.count(i));
                break;
            case 7:
                ok = cls[i] == 'o';
                break;
            default:
                break;
        }
        c.require(ok, "class-" + what, what, " changed gene ", i, " (", std::string(1, cls[i]), A.count(i) ? ", active" : ", inactive", ") of ", x0);
    }
    // What must have changed.
    if (kind == 0) c.require(D.size() == (choice(idx) ? 1u : 0u), "unchanged", "mutating gene ", idx, " of ", x0, " changed ", as_vec(D));
    if (kind == 1) {
        for (unsigned i : list)
            if (choice(i) && std::count(list.begin(), list.end(), i) == 1) c.require(D.count(i), "unchanged", "mutating genes ", list, " of ", x0, " did not change gene ", i);
    }
    if (N == 1 && kind >= 2) {
        // The gene chosen has an alternative if all that could be chosen have.
        bool all = true, any = false;
        for (unsigned i = 0; i < size; ++i) {
            const bool could = kind == 2 || (kind == 4 && A.count(i)) || (kind == 5 && A.count(i) && cls[i] == 'f') || (kind == 6 && A.count(i) && cls[i] == 'c')
                               || (kind == 7 && cls[i] == 'o') || (kind == 3 && !A.count(i));
            if (!could) continue;
            any = true;
            all = all && choice(i);
        }
        if (any && all && kind != 3) c.require(D.size() == 1, "unchanged-" + what, what, " changed no gene of ", x0);
        if (!any) c.require(D.empty(), "class-" + what, what, " changed ", as_vec(D), " of ", x0);
    }
    // Evaluation and bookkeeping follow.
    check_active(c, e, s, what);
    const auto out1 = e(in);
    auto full = in;
    for (double v : e.get_eph_val()) full.push_back(v);
    const auto want = evaluate<double>(s, x1, full, [&](unsigned f, unsigned, const std::vector<double> &a) { return e.get_f()[f](a); });
    for (unsigned j = 0; j < s.m; ++j) {
        c.require(same(out1[j], want[j]), "evaluation", what, ": output ", j, " is ", out1[j], " where the new graph gives ", want[j]);
        if (kind == 3) c.require(same(out1[j], out0[j]), "inactive-value", "mutate_inactive changed output ", j, " from ", out0[j], " to ", out1[j]);
    }
    c.require(e.get_eph_val() == k0, "constants", what, " changed the constants");
    return D;
}

static void history(Gen &g, Case &c)
{
    const Shape s = shape(g, POOL, g.chance(1, 12) ? Limits{5, 3, 6, 6, 12, 5, 5} : Limits{});
    Ex e = build<double>(s);
    c.note(s, ":");
    const unsigned n = g.small(1, 14);
    unsigned changes = 0;
    for (unsigned k = 0; k < n; ++k) {
        if (g.chance(1, 5)) {
            e.set(chromosome(g, s));
            c.trace(" set;");
        }
        const unsigned kind = g.u(0, 7), N = g.flip() ? 1 : (g.chance(1, 6) ? g.u(0, 40) : g.u(0, 5));
        changes += !one(g, c, e, s, kind, N).empty();
    }
    check_structure(c, e, s, nullptr, "at the end");
    c.nontrivial(changes > 1);
}

// Every gene a mutation may choose is chosen at times, and every other value given to it.
static void coverage(Gen &g, Case &c)
{
    const Shape s = shape(g, POOL, Limits{2, 1, 3, 2, 2, 2, 3});
    Ex e0 = build<double>(s);
    e0.set(chromosome(g, s));
    Chrom lb, ub;
    s.bounds(lb, ub);
    const std::string cls = s.classes();
    const auto A = reachable_genes(s, e0.get());
    const unsigned kind = g.u(2, 7);
    c.note(NAMES[kind], " of x=", e0.get(), " ", s);
    std::set<std::pair<unsigned, unsigned>> want, got;
    for (unsigned i = 0; i < s.size(); ++i) {
        const bool could = kind == 2 || (kind == 4 && A.count(i)) || (kind == 5 && A.count(i) && cls[i] == 'f') || (kind == 6 && A.count(i) && cls[i] == 'c')
                           || (kind == 7 && cls[i] == 'o') || (kind == 3 && !A.count(i));
        if (!could) continue;
        for (unsigned v = lb[i]; v <= ub[i]; ++v)
            if (v != e0.get()[i]) want.insert({i, v});
    }
    Ex rng = e0;
    const unsigned tries = 40 * s.size() * (1 + *std::max_element(ub.begin(), ub.end()));
    for (unsigned k = 0; k < tries && got.size() < want.size(); ++k) {
        Ex e = rng;
        e.set(e0.get());
        switch (kind) {
            case 2:
                e.mutate_random(1);
                break;
            case 3:
                e.mutate_inactive(1);
                break;
            case 4:
                e.mutate_active(1);
                break;
            case 5:
                e.mutate_active_fgene(1);
                break;
            case 6:
                e.mutate_active_cgene(1);
                break;
            default:
                e.mutate_ogene(1);
        }
        for (unsigned i : diff(e0.get(), e.get())) got.insert({i, e.get()[i]});
        rng = e; // its random engine goes on
    }
    c.nontrivial(want.size() > 3);
    for (auto &p : want)
        c.require(got.count(p), std::string("never-") + NAMES[kind], NAMES[kind], " never gave gene ", p.first, " the value ", p.second, " in ", tries, " tries on ", e0.get());
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "E04";
    p.rule = "random shapes, chromosomes and histories of up to fourteen mutations of every kind asking for 0 to 40 genes; the genes changed, their class, activity, number, "
             "bounds, and the values and bookkeeping afterwards, against the reference model; and, on small shapes, that every gene of the class and every other value "
             "within bounds comes up in repeated mutations; non-trivial: more than one mutation changed something; counted distinct by choice sequence";
    p.subs = {{"history", 60000, 1200000, history}, {"coverage", 4000, 60000, coverage}};
    p.assumptions = {"coverage: each gene of the class is chosen with a probability at least a fortieth of the uniform one (a false alarm has probability below 1e-15 per case on uniform choices)"};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
