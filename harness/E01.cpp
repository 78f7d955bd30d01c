// E01: expressions are built within documented bounds and reject impossible requests.
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <list>
#include <expr.hpp>

using namespace cgp;
using audi::gdual_d;

template <typename F>
static bool rejects(F f)
{
    try {
        f();
    } catch (const std::invalid_argument &) {
        return true;
    }
    return false;
}

template <typename T>
static const std::vector<std::string> &pool()
{
    static const std::vector<std::string> p = [] {
        auto v = ev::catalogue();
        if (!std::is_same<T, double>::value) v.erase(std::find(v.begin(), v.end(), "pdiv"));
        return v;
    }();
    return p;
}

template <typename T>
static void legal(Gen &g, Case &c)
{
    const Shape s = shape(g, pool<T>(), g.chance(1, 10) ? Limits{9, 12, 7, 9, 14, 7, 23} : Limits{});
    c.note(s);
    c.label("rows " + std::to_string(std::min(s.r, 3u)) + " columns " + std::to_string(std::min(s.c, 3u)));
    c.nontrivial(s.c > 1 || s.r > 1 || s.m > 1);
    const auto e = build<T>(s);
    check_structure(c, e, s, nullptr, "just built");
    check_active(c, e, s, "just built");
    const auto k = constants(e);
    c.require(k.size() == s.n_eph, "constants", k.size(), " constants instead of ", s.n_eph);
    for (double v : k) c.require(v >= -10 && v <= 10, "constants", "a constant is ", v);
    for (unsigned i = 0; i < s.n_eph; ++i) {
        c.require(e.get_eph_symb().size() == s.n_eph && e.get_eph_symb()[i] == "c" + std::to_string(i + 1), "names", "the constants are named ", e.get_eph_symb());
        for (unsigned j = 0; j < i; ++j) c.require(k[i] != k[j], "constants", "constants ", i, " and ", j, " are both ", k[i]);
    }
    if (s.uniform) {
        // the two constructors agree
        Shape s2 = s;
        s2.uniform = false;
        c.require(snapshot(build<T>(s2)) == snapshot(e), "constructors", "the two constructors differ: ", snapshot(build<T>(s2)), " and ", snapshot(e));
    }
}

template <typename T>
static void illegal(Gen &g, Case &c)
{
    Shape s = shape(g, pool<T>());
    dcgp::kernel_set<T> ks(s.kernels);
    auto f = ks();
    const auto what = g.raw(7);
    auto arity = s.arity;
    unsigned n = s.n, m = s.m, r = s.r, cc = s.c, l = s.l, eph = s.n_eph;
    bool uniform = s.uniform;
    switch (what) {
        case 0:
            n = 0;
            eph = 0;
            break;
        case 1:
            m = 0;
            break;
        case 2:
            r = 0;
            break;
        case 3:
            cc = 0;
            if (g.flip()) arity.clear();
            break;
        case 4:
            l = 0;
            break;
        case 5:
            if (g.flip()) {
                arity[g.raw(arity.size() - 1)] = 0;
                uniform = uniform && arity[0] == 0;
            } else {
                arity.assign(arity.size(), 0);
            }
            break;
        case 6:
            f.clear();
            break;
        default:
            uniform = false;
            if (g.flip()) {
                arity.push_back(g.u(1, 3));
            } else {
                arity.pop_back();
            }
    }
    c.note("n=", n, " eph=", eph, " m=", m, " r=", r, " c=", cc, " l=", l, " arity=", arity, uniform ? " (uniform)" : "", " ", f.size(), " kernels");
    c.label("illegal " + std::to_string(what));
    c.nontrivial();
    const bool ok = rejects([&] {
        if (uniform) {
            dcgp::expression<T> e(n, m, r, cc, l, arity.empty() ? 1u : arity[0], f, eph, s.seed);
        } else {
            dcgp::expression<T> e(n, m, r, cc, l, arity, f, eph, s.seed);
        }
    });
    c.require(ok, "accepted-shape", "an impossible shape was accepted");
}

template <typename T>
static void requests(Gen &g, Case &c)
{
    const Shape s = shape(g, pool<T>());
    auto e = build<T>(s);
    Chrom lb, ub;
    s.bounds(lb, ub);
    c.note(s, ":");
    const unsigned n = g.small(1, 12);
    c.nontrivial(n > 1);
    Chrom x = e.get();
    for (unsigned k = 0; k < n; ++k) {
        const std::string before = snapshot(e);
        auto twin = e;
        bool bad = false, rejected = false;
        switch (g.raw(8)) {
            case 0: {
                x = chromosome(g, s);
                c.trace(" set");
                e.set(x);
                break;
            }
            case 1: {
                x = chromosome(g, s);
                c.trace(" set_from_range");
                switch (g.raw(3)) {
                    case 0:
                        e.set_from_range(x.begin(), x.end());
                        break;
                    case 1: {
                        std::vector<double> d(x.begin(), x.end());
                        e.set_from_range(d.begin(), d.end());
                        break;
                    }
                    case 2: {
                        std::list<long> d(x.begin(), x.end());
                        e.set_from_range(d.begin(), d.end());
                        break;
                    }
                    default: {
                        // as a problem does: the tail of a longer vector of doubles
                        std::vector<double> d(3, -1e9);
                        d.insert(d.end(), x.begin(), x.end());
                        e.set_from_range(d.begin() + 3, d.end());
                    }
                }
                break;
            }
            case 2: {
                bad = true;
                Chrom y = chromosome(g, s);
                const auto how = g.raw(3);
                if (how == 0) {
                    y.push_back(0);
                } else if (how == 1) {
                    y.pop_back();
                } else if (how == 2) {
                    const auto i = g.raw(y.size() - 1);
                    y[i] = ub[i] + 1 + static_cast<unsigned>(g.raw(g.flip() ? 2 : 4000000000u - ub[i]));
                } else {
                    const auto i = g.raw(y.size() - 1);
                    y[i] = lb[i] > 0 ? lb[i] - 1 - static_cast<unsigned>(g.raw(lb[i] - 1)) : ub[i] + 1;
                }
                c.trace(" set wrong ", how);
                rejected = rejects([&] { e.set(y); });
                break;
            }
            case 3: {
                bad = true;
                const Chrom y = chromosome(g, s);
                std::vector<double> d(y.begin(), y.end());
                const auto i = g.raw(y.size() - 1);
                const auto how = g.raw(6);
                const double wrong[] = {-1, ub[i] + 1., 1e300, -1e300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
                if (how == 6) {
                    d.resize(g.raw(d.size() - 1));
                } else {
                    d[i] = wrong[how];
                }
                c.trace(" set_from_range wrong ", how);
                rejected = rejects([&] { e.set_from_range(d.begin(), d.end()); });
                break;
            }
            case 4: {
                const unsigned node = g.u(s.in(), s.nodes() - 1), f = g.u(0, static_cast<unsigned>(s.kernels.size()) - 1);
                c.trace(" set_f_gene ", node, " ", f);
                e.set_f_gene(node, f);
                x[s.gene(node)] = f;
                break;
            }
            case 5: {
                bad = true;
                unsigned node = g.u(s.in(), s.nodes() - 1), f = g.u(0, static_cast<unsigned>(s.kernels.size()) - 1);
                const auto how = g.raw(2);
                if (how == 0) node = g.flip() ? s.nodes() + g.u(0, 3) : 4294967295u - g.u(0, 3);
                if (how == 1) node = g.u(0, s.in() - 1);
                if (how == 2) f = g.flip() ? static_cast<unsigned>(s.kernels.size()) + g.u(0, 3) : 4294967295u;
                c.trace(" set_f_gene wrong ", node, " ", f);
                rejected = rejects([&] { e.set_f_gene(node, f); });
                break;
            }
            case 6: {
                bad = true;
                const unsigned node = g.flip() ? g.u(0, s.in() - 1) : s.nodes() + g.u(0, 5);
                c.trace(" get_arity wrong ", node);
                rejected = rejects([&] { e.get_arity(node); });
                break;
            }
            case 7: {
                bad = true;
                const unsigned i = g.flip() ? static_cast<unsigned>(x.size()) + g.u(0, 3) : 4294967295u;
                c.trace(" mutate wrong ", i);
                rejected = rejects([&] { e.mutate(i); });
                break;
            }
            default: {
                bad = true;
                std::vector<unsigned> v;
                const unsigned z = g.u(1, 5);
                for (unsigned q = 0; q < z; ++q) v.push_back(static_cast<unsigned>(g.raw(x.size() - 1)));
                v[g.raw(z - 1)] = static_cast<unsigned>(x.size()) + g.u(0, 2);
                c.trace(" mutate several wrong ", v);
                rejected = rejects([&] { e.mutate(v); });
            }
        }
        c.trace(";");
        if (bad) {
            c.require(rejected, "accepted-request", "an impossible request was accepted: ", c.notes());
            c.require(snapshot(e) == before, "changed-by-rejection", "a rejected request changed the expression from ", before, " to ", snapshot(e));
            // neither was its future
            auto a = e;
            a.mutate_random(5);
            twin.mutate_random(5);
            c.require(snapshot(a) == snapshot(twin), "future-changed-by-rejection", "a rejected request changed the random future of the expression");
        }
        check_structure(c, e, s, &x, "after a request");
        check_active(c, e, s, "after a request");
    }
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "E01";
    p.rule = "random legal shapes (up to 9 inputs, 12 constants, 9 rows, 14 columns, arities up to 7 by column, levels-back beyond the columns) against bounds derived from "
             "the documentation; shapes made illegal in one way; histories of legal and illegal requests, the illegal ones having to throw and change nothing, the random "
             "future included; non-trivial: more than one node or output, resp. more than one request; counted distinct by choice sequence";
    p.subs = {{"legal", 60000, 1000000, legal<double>}, {"legal_gdual", 10000, 150000, legal<gdual_d>}, {"illegal", 30000, 500000, illegal<double>},
              {"requests", 60000, 1200000, requests<double>}, {"requests_gdual", 8000, 120000, requests<gdual_d>}};
    p.case_cpu_s = 20;
    return pbt::run(argc, argv, p);
}
