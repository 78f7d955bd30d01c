// P03: the problem describes itself consistently and rejects impossible data.
// FLAGS: -O1 -g0 -D_GLIBCXX_ASSERTIONS -fsanitize=undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include <problem.hpp>

PAGMO_S11N_PROBLEM_IMPLEMENT(dcgp::symbolic_regression)

using namespace cgp;
using dcgp::symbolic_regression;

template <typename F>
static bool throws(F &&f)
{
    try {
        f();
    } catch (const std::invalid_argument &) {
        return true;
    }
    return false;
}
static std::string digits(double v)
{
    std::ostringstream ss;
    ss.precision(17);
    ss << v;
    return ss.str() == "-nan" ? "nan" : ss.str();
}
// Everything a problem says.
template <typename P>
static std::string story(const P &p, const std::vector<Vector> &xs)
{
    std::ostringstream ss;
    ss << p.get_nobj() << ' ' << p.get_nix() << ' ' << p.get_name() << '|' << p.get_extra_info() << '|' << static_cast<int>(p.get_thread_safety()) << '|';
    const auto b = p.get_bounds();
    for (double v : b.first) ss << digits(v) << ' ';
    for (double v : b.second) ss << digits(v) << ' ';
    for (auto &e : p.gradient_sparsity()) ss << e.first << ',' << e.second << ' ';
    for (auto &h : p.hessians_sparsity())
        for (auto &e : h) ss << e.first << ',' << e.second << ' ';
    for (auto &x : xs) {
        // derivatives first: the fitness computed along with them is reused, and may differ in the last digits
        for (double v : p.gradient(x)) ss << digits(v) << ' ';
        for (double v : p.fitness(x)) ss << digits(v) << ' ';
        for (auto &h : p.hessians(x))
            for (double v : h) ss << digits(v) << ' ';
    }
    return ss.str();
}
static const ProblemLimits &limits(Gen &g)
{
    static const ProblemLimits few, wide = [] {
        ProblemLimits L;
        L.shape = Limits{7, 6, 7, 5, 9, 5, 23};
        L.points = 20;
        return L;
    }();
    return g.chance(1, 8) ? wide : few;
}

static void legal(Gen &g, Case &c)
{
    Config k = config(g, ev::catalogue(), limits(g));
    k.parallel = std::min(k.parallel, 1u); // the order of parallel sums would show in the last digits
    const Shape &s = k.s;
    c.note(k);
    const auto u = k.build();
    const pagmo::problem p(u);
    const unsigned nobj = k.multi ? 2 : 1;
    c.require(u.get_nobj() == nobj && p.get_nobj() == nobj, "objectives", "there are ", u.get_nobj(), " objectives");
    c.require(u.get_nix() == s.size() && p.get_nix() == s.size(), "integers", "there are ", u.get_nix(), " integer variables, expected ", s.size());
    c.require(p.get_ncx() == s.n_eph, "reals", "there are ", p.get_ncx(), " continuous variables, expected ", s.n_eph);
    c.require(p.get_nec() == 0 && p.get_nic() == 0, "constraints", "there are constraints");
    c.require(p.has_gradient() && p.has_hessians() && !p.is_stochastic(), "kind", "the problem lacks its gradient or its Hessians, or is stochastic");
    Chrom lb, ub;
    s.bounds(lb, ub);
    Vector L(s.n_eph, -10.), U(s.n_eph, 10.);
    L.insert(L.end(), lb.begin(), lb.end());
    U.insert(U.end(), ub.begin(), ub.end());
    const auto b = u.get_bounds();
    c.require(b.first == L && b.second == U, "bounds", "the bounds are ", b.first, " and ", b.second, ", expected ", L, " and ", U);
    const auto gs = u.gradient_sparsity();
    c.require(gs.size() == s.n_eph, "gradient pattern", "the gradient has ", gs.size(), " entries for ", s.n_eph, " constants");
    for (unsigned i = 0; i < s.n_eph; ++i)
        c.require(std::find(gs.begin(), gs.end(), std::pair<pagmo::vector_double::size_type, pagmo::vector_double::size_type>(0, i)) != gs.end(), "gradient pattern", "constant ", i,
                  " is not in the gradient");
    const auto hs = u.hessians_sparsity();
    c.require(hs.size() == nobj && hs[0].size() == s.n_eph * (s.n_eph + 1) / 2, "hessian pattern", "there are ", hs.size(), " Hessians");
    for (unsigned i = 0; i < s.n_eph; ++i)
        for (unsigned j = 0; j <= i; ++j)
            c.require(std::find(hs[0].begin(), hs[0].end(), std::pair<pagmo::vector_double::size_type, pagmo::vector_double::size_type>(i, j)) != hs[0].end(), "hessian pattern",
                      "constants ", i, " and ", j, " are not in the Hessian");
    // the program inside
    const auto &e = u.get_cgp();
    c.require(e.get_n() == s.in() && e.get_m() == s.m && e.get_r() == s.r && e.get_c() == s.c && e.get_l() == s.l && e.get_arity() == s.arity, "program", "the program inside has n=",
              e.get_n(), " m=", e.get_m(), " r=", e.get_r(), " c=", e.get_c(), " l=", e.get_l(), " arity ", e.get_arity());
    c.require(e.get_f().size() == s.kernels.size(), "kernels", "there are ", e.get_f().size(), " kernels");
    for (std::size_t i = 0; i < s.kernels.size(); ++i) c.require(e.get_f()[i].get_name() == s.kernels[i], "kernels", "kernel ", i, " is ", e.get_f()[i].get_name());
    // what it says of itself
    const auto info = u.get_extra_info();
    for (auto &w : {"Data dimension (points): " + std::to_string(s.n) + "\n", "Data dimension (labels): " + std::to_string(s.m) + "\n",
                    "Data size: " + std::to_string(k.X.size()) + "\n", std::string("Loss: ") + (k.ce ? "CE" : "MSE") + "\n"})
        c.require(info.find(w) != std::string::npos, "info", "the description ", info, " does not say ", w);
    const auto at = info.find("Kernels: ");
    std::istringstream names(at == std::string::npos ? "" : info.substr(at + 9, info.find('\n', at) - at - 9));
    std::size_t said = 0;
    for (std::string w; names >> w && said < std::min<std::size_t>(5, s.kernels.size());) // long lists are abbreviated
        if (w.find(s.kernels[said]) != std::string::npos) ++said;
    c.require(said == std::min<std::size_t>(5, s.kernels.size()), "info", "the description ", info, " does not list the kernels");
    c.require(!u.get_name().empty(), "name", "the name is empty");
    // every candidate within the bounds can be evaluated; none outside
    std::vector<Vector> xs{candidate(g, k), candidate(g, k)};
    for (auto &x : xs) c.require(p.fitness(x).size() == nobj, "fitness size", "the fitness of ", x, " is ", p.fitness(x));
    Vector x = xs[0];
    const unsigned i = static_cast<unsigned>(g.raw(lb.size() - 1));
    if (g.flip() || lb[i] == 0) {
        x[s.n_eph + i] = ub[i] + g.pick(std::vector<double>{1, 2, 100, 4294967295. - ub[i]});
    } else {
        x[s.n_eph + i] = lb[i] - 1.;
    }
    c.require(throws([&] { u.fitness(x); }), "accepted: fitness", "gene ", i, " of ", x, " is out of its bounds, and the fitness is computed");
    c.require(throws([&] { u.gradient(x); }), "accepted: gradient", "gene ", i, " of ", x, " is out of its bounds, and the gradient is computed");
    c.require(throws([&] { u.hessians(x); }), "accepted: hessians", "gene ", i, " of ", x, " is out of its bounds, and the Hessian is computed");
    c.require(throws([&] { u.predict(k.X[0], x); }), "accepted: predict", "gene ", i, " of ", x, " is out of its bounds, and a prediction is made");
    c.require(throws([&] { u.pretty(x); }), "accepted: pretty", "gene ", i, " of ", x, " is out of its bounds, and a text is written");
    Vector longer = xs[0];
    longer.push_back(0);
    c.require(throws([&] { u.fitness(longer); }), "accepted: long", "a decision vector with one more gene is evaluated");
    Vector shorter(xs[0].begin(), xs[0].end() - 1);
    c.require(throws([&] { u.fitness(shorter); }), "accepted: short", "a decision vector with one gene less is evaluated");
    // and it goes on as before
    const auto fresh = k.build();
    const auto mine = story(u, xs);
    c.require(mine == story(fresh, xs), "disturbed", "after rejected candidates the problem says ", mine, ", a new one ", story(fresh, xs));
    const symbolic_regression copy(u);
    c.require(mine == story(copy, xs), "copy", "a copy says ", story(copy, xs), ", the original ", mine);
    c.nontrivial(s.c > 1 || s.r > 1);
    c.label(k.multi ? "two objectives" : "one objective");
    // round trips, alone and inside a pagmo problem
    const bool text = g.flip() && mine.find("nan") == std::string::npos && mine.find("inf") == std::string::npos; // Boost cannot read those back
    std::stringstream ss;
    if (g.flip()) {
        symbolic_regression r;
        if (text) {
            boost::archive::text_oarchive(ss) << u;
            boost::archive::text_iarchive a(ss);
            a >> r;
        } else {
            boost::archive::binary_oarchive(ss) << u;
            boost::archive::binary_iarchive a(ss);
            a >> r;
        }
        c.require(mine == story(r, xs), "archive", "a loaded problem says ", story(r, xs), ", the original ", mine);
        c.require(snapshot(r.get_cgp()) == snapshot(u.get_cgp()), "archive", "the program inside a loaded problem differs");
    } else {
        pagmo::problem r;
        if (text) {
            boost::archive::text_oarchive(ss) << p;
            boost::archive::text_iarchive a(ss);
            a >> r;
        } else {
            boost::archive::binary_oarchive(ss) << p;
            boost::archive::binary_iarchive a(ss);
            a >> r;
        }
        c.require(r.is<symbolic_regression>(), "archive", "a loaded pagmo problem is something else");
        c.require(mine == story(*r.extract<symbolic_regression>(), xs), "archive", "a loaded pagmo problem says ", story(*r.extract<symbolic_regression>(), xs), ", the original ", mine);
    }
}

static void illegal(Gen &g, Case &c)
{
    Config k = config(g, ev::catalogue());
    const unsigned points = static_cast<unsigned>(k.X.size()), at = static_cast<unsigned>(g.raw(points - 1));
    Shape &s = k.s;
    auto kernels = s.kernels;
    unsigned arity = s.arity[0];
    std::string loss = k.ce ? "CE" : "MSE";
    std::string what;
    switch (g.raw(11)) {
        case 0:
            what = "no points";
            k.X.clear();
            if (g.flip()) k.Y.clear();
            break;
        case 1:
            what = "no labels";
            k.Y.clear();
            break;
        case 2:
            what = "fewer labels";
            k.Y.resize(at);
            break;
        case 3:
            what = "more labels";
            for (unsigned i = g.u(1, 3); i > 0; --i) k.Y.push_back(k.Y[0]);
            break;
        case 4:
        case 5: {
            what = "a point of another dimension";
            auto &D = k.X;
            if (points == 1) {
                D.push_back(D[0]);
                k.Y.push_back(k.Y[0]);
            }
            auto &v = D[g.raw(D.size() - 1)];
            if (g.flip() && v.size() > 0)
                v.resize(g.raw(v.size() - 1));
            else
                v.resize(v.size() + g.u(1, 3), 1.);
            break;
        }
        case 6: {
            what = "a label of another dimension";
            auto &D = k.Y;
            if (points == 1) {
                D.push_back(D[0]);
                k.X.push_back(k.X[0]);
            }
            auto &v = D[g.raw(D.size() - 1)];
            if (g.flip())
                v.resize(g.raw(v.size() - 1));
            else
                v.resize(v.size() + g.u(1, 3), 1.);
            break;
        }
        case 7: {
            what = g.flip() ? "points of no dimension" : "labels of no dimension";
            for (auto &v : what[0] == 'p' ? k.X : k.Y) v.clear();
            if (what[0] == 'p') s.n_eph = 0;
            break;
        }
        case 8:
            what = "no rows, columns or levels";
            switch (g.raw(2)) {
                case 0:
                    s.r = 0;
                    break;
                case 1:
                    s.c = 0;
                    break;
                default:
                    s.l = 0;
            }
            break;
        case 9:
            what = "arity zero";
            arity = 0;
            break;
        case 10:
            what = "no kernels";
            kernels.clear();
            break;
        default: {
            what = "unknown loss";
            static const std::vector<std::string> bad = {"", "mse", "RMSE", "MSE ", "ce", "CEE", "M", "MAE", "MSECE"};
            loss = g.pick(bad);
        }
    }
    c.note(what, ": ", k, " arity ", arity, " kernels ", kernels, " loss ", loss);
    dcgp::kernel_set<double> ks(kernels);
    c.require(throws([&] { symbolic_regression(k.X, k.Y, s.r, s.c, s.l, arity, ks(), s.n_eph, k.multi, k.parallel, loss, s.seed); }), "accepted: " + what, "a problem with ", what,
              " is built");
    c.label(what);
    c.nontrivial();
}

// Thread safety is that of the least safe kernel.
struct Odd {
    pagmo::thread_safety ts;
    double operator()(const std::vector<double> &v) const
    {
        return v[0];
    }
    std::string operator()(const std::vector<std::string> &v) const
    {
        return v[0];
    }
    pagmo::thread_safety get_thread_safety() const
    {
        return ts;
    }
};
static void safety(Gen &g, Case &c)
{
    using TS = pagmo::thread_safety;
    const Config k = config(g, ev::catalogue());
    std::vector<dcgp::kernel<double>> f;
    TS least = TS::constant;
    const unsigned n = g.u(1, 5);
    static const std::vector<TS> levels = {TS::none, TS::basic, TS::constant};
    c.note(k, " kernels");
    for (unsigned i = 0; i < n; ++i) {
        const TS a = g.pick(levels), b = g.pick(levels);
        least = std::min({least, a, b});
        f.push_back(dcgp::kernel<double>(Odd{a}, Odd{b}, "sum"));
        c.trace(" ", static_cast<int>(a), "/", static_cast<int>(b));
    }
    const symbolic_regression u(k.X, k.Y, k.s.r, k.s.c, k.s.l, k.s.arity[0], f, k.s.n_eph, k.multi, k.parallel, k.ce ? "CE" : "MSE", k.s.seed);
    c.require(u.get_thread_safety() == least, "thread safety", "the thread safety is ", static_cast<int>(u.get_thread_safety()), ", expected ", static_cast<int>(least));
    c.require(pagmo::problem(u).get_thread_safety() == least, "thread safety", "the thread safety in pagmo is ", static_cast<int>(pagmo::problem(u).get_thread_safety()));
    c.nontrivial(n > 1);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "P03";
    p.rule = "random legal configurations, compared with a model of the configuration, copied, archived (text and binary, alone and inside a pagmo problem), given candidates out of bounds; "
             "random illegal configurations of eleven kinds; kernels of any thread safety; non-trivial: more than one node, or illegal, or more than one kernel; counted distinct by choice sequence";
    p.subs = {{"legal", 60000, 300000, legal}, {"illegal", 30000, 300000, illegal}, {"safety", 20000, 200000, safety}};
    p.assumptions = {"with the stand-in for AuDi", "data are finite; an arity of one is left open"};
    return pbt::run(argc, argv, p);
}
