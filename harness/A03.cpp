// A03: one epoch of stochastic gradient descent.
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <net.hpp>

#include <set>

using namespace cgp;
using E = dcgp::expression_ann;

static bool close(double a, double b)
{
    return same(a, b) || std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b));
}
// The loss of a batch and its gradient, summed from the single points.
// With noise, every gradient is off by that relative amount: what that changes tells how much rounding may change.
static double step(E &e, const Data &X, const Data &Y, std::size_t from, std::size_t to, bool ce, double lr, double noise = 0)
{
    const auto type = ce ? dcgp::expression<double>::loss_type::CE : dcgp::expression<double>::loss_type::MSE;
    double v = 0;
    std::vector<double> w(e.get_weights().size(), 0.), b(e.get_biases().size(), 0.);
    for (std::size_t i = from; i < to; ++i) static_cast<const E &>(e).d_loss(v, w, b, X[i], Y[i], type);
    const double n = static_cast<double>(to - from);
    double way = noise;
    for (auto *v : {&w, &b})
        for (double &z : *v) {
            z += way * (1 + std::abs(z));
            way = -way;
        }
    auto W = e.get_weights(), B = e.get_biases();
    for (std::size_t i = 0; i < W.size(); ++i) W[i] -= lr * w[i] / n;
    for (std::size_t i = 0; i < B.size(); ++i) B[i] -= lr * b[i] / n;
    e.set_weights(W);
    e.set_biases(B);
    return v / n;
}

static void epochs(Gen &g, Case &c)
{
    const Shape s = net_shape(g);
    E e = make<E>(s);
    e.set(chromosome(g, s));
    const Params p = params(g, s);
    e.set_weights(p.w);
    e.set_biases(p.b);
    const unsigned points = g.small(1, 20);
    Data X = data(g, points, s.n, 2, false), Y = data(g, points, s.m, 2, g.flip());
    c.note(s, ": x=", e.get(), " weights ", p.w, " biases ", p.b, " points ", X, " labels ", Y);
    const unsigned n = g.u(1, 3);
    unsigned batches = 0;
    bool finite = true;
    for (unsigned ep = 0; ep < n; ++ep) {
        const bool ce = g.flip(), shuffle = g.flip();
        const unsigned size = g.chance(1, 10) ? g.pick(std::vector<unsigned>{1000u, 0x7fffffffu, 0xffffffffu}) : g.u(1, points + 2);
        const double lr = g.pick(std::vector<double>{0.01, 0.1, 1e-3, 0.5, 1});
        // a split that every batch allows
        const unsigned full = std::min(size, points), rest = size < points ? points % size : 0;
        std::vector<unsigned> splits{0};
        for (unsigned d : divisors(full))
            if (rest % d == 0) splits.push_back(d);
        const unsigned par = g.pick(splits);
        c.trace(ce ? " CE" : " MSE", " batches of ", size, " rate ", lr, " parallel ", par, shuffle ? " shuffled" : "");
        const Chrom x = e.get();
        const auto W0 = e.get_weights(), B0 = e.get_biases();
        const Data X0 = X, Y0 = Y;
        const double got = e.sgd(X, Y, lr, size, ce ? "CE" : "MSE", par, shuffle);
        // the data are the same pairs, in another order if shuffled
        if (!shuffle) {
            c.require(X == X0 && Y == Y0, "order", "without shuffling, the data changed to ", X, " and ", Y);
        } else {
            std::vector<std::pair<std::vector<double>, std::vector<double>>> a, b;
            c.require(X.size() == points && Y.size() == points, "size", "after shuffling there are ", X.size(), " points and ", Y.size(), " labels");
            for (unsigned i = 0; i < points; ++i) {
                a.push_back({X0[i], Y0[i]});
                b.push_back({X[i], Y[i]});
            }
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            if (std::set<std::vector<double>>(X0.begin(), X0.end()).size() >= 15) { // one permutation in 10^12 leaves them as they were
                c.require(X != X0, "not shuffled", "shuffling left the points in the same order");
                c.label("shuffled");
            }
            c.require(a == b, "pairs", "shuffling did not keep points and labels paired: points ", X, " labels ", Y);
        }
        c.require(e.get() == x, "chromosome", "the chromosome changed");
        E r = make<E>(s);
        r.set(x);
        r.set_weights(W0);
        r.set_biases(B0);
        const E r0 = r;
        unsigned k = 0;
        const auto epoch = [&](E &q, double noise) {
            double v = 0;
            k = 0;
            for (std::size_t i = 0; i < points; ++k) {
                const std::size_t to = std::min<std::size_t>(points, i + size);
                v += step(q, X, Y, i, to, ce, lr, k % 2 ? -noise : noise);
                i = to;
            }
            return v / k;
        };
        const double want = epoch(r, 0);
        batches += k;
        for (double z : r.get_weights()) finite = finite && std::abs(z) < 1e6;
        for (double z : r.get_biases()) finite = finite && std::abs(z) < 1e6;
        if (!finite) { // diverged: rounding decides
            c.label("diverged");
            return;
        }
        const auto gap = [](double a, double b) { return same(a, b) ? 0. : std::abs(a - b) / (1 + std::abs(a) + std::abs(b)); };
        const auto far = [&](const E &q, double v) {
            double worst = gap(v, want);
            for (std::size_t i = 0; i < W0.size(); ++i) worst = std::max(worst, gap(q.get_weights()[i], r.get_weights()[i]));
            for (std::size_t i = 0; i < B0.size(); ++i) worst = std::max(worst, gap(q.get_biases()[i], r.get_biases()[i]));
            return worst;
        };
        double drift = 0;
        for (double noise : {1e-13, -1e-13}) {
            E q = r0;
            const double v = epoch(q, noise);
            drift = std::max(drift, far(q, v));
        }
        if (!(drift < 1e-10)) { // the updates amplify rounding: no comparison, and no use going on
            c.label("sensitive");
            return;
        }
        // steps near a kink may go either way with the rounding of parallel sums: compared when sequential
        const bool exact = par == 0;
        if (exact) {
            c.require(close(got, want), "loss", "the epoch returns ", got, ", the mean of the ", k, " batch losses is ", want);
            for (std::size_t i = 0; i < W0.size(); ++i)
                c.require(close(e.get_weights()[i], r.get_weights()[i]), "weights", "weight ", i, " went from ", W0[i], " to ", e.get_weights()[i], ", expected ", r.get_weights()[i]);
            for (std::size_t i = 0; i < B0.size(); ++i)
                c.require(close(e.get_biases()[i], r.get_biases()[i]), "biases", "bias ", i, " went from ", B0[i], " to ", e.get_biases()[i], ", expected ", r.get_biases()[i]);
        } else {
            const bool off = !(far(e, got) <= 1e-9);
            bool kinked = false;
            for (auto &f : s.kernels) kinked = kinked || f == "ReLu" || f == "ELU" || f == "abs" || f == "step";
            c.require(!off || kinked, "parallel", "with parallelism ", par, " the epoch returns ", got, ", expected ", want, ", weights ", e.get_weights(), ", expected ",
                      r.get_weights());
            c.label("parallel");
        }
        // go on from the same place
        e.set_weights(r.get_weights());
        e.set_biases(r.get_biases());
    }
    c.nontrivial(batches > n && e.get_active_nodes().back() >= s.in());
}

static void rejects(Gen &g, Case &c)
{
    const Shape s = net_shape(g);
    E e = make<E>(s);
    const Params p = params(g, s);
    e.set_weights(p.w);
    e.set_biases(p.b);
    const unsigned points = g.small(1, 12);
    Data X = data(g, points, s.n, 2, false), Y = data(g, points, s.m, 2, false);
    std::string loss = g.flip() ? "CE" : "MSE";
    double lr = 0.1;
    unsigned size = g.u(1, points), par = 0;
    const unsigned at = static_cast<unsigned>(g.raw(points - 1));
    const char *what = "";
    switch (g.raw(7)) {
        case 0:
            what = "no data";
            X.clear();
            Y.clear();
            break;
        case 1:
            what = "fewer labels";
            Y.resize(at);
            break;
        case 2:
            what = "more labels";
            Y.resize(points + g.u(1, 3), Y[0]);
            break;
        case 3: {
            what = "unknown loss";
            static const std::vector<std::string> bad = {"", "mse", "RMSE", "MSE ", "ce", "CEE", "M"};
            loss = g.pick(bad);
            break;
        }
        case 4: {
            what = "bad rate";
            lr = g.pick(std::vector<double>{0., -0.1, -1e300, -5e-324, -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), -0.});
            break;
        }
        case 5:
            what = "batch size zero";
            size = 0;
            break;
        case 6: {
            what = "impossible split";
            par = size + g.u(1, 4);
            for (unsigned d = 2; d <= size && g.flip(); ++d)
                if (size % d) par = d;
            break;
        }
        default: {
            what = "impossible split of the last batch";
            // all the batches but the last can be split
            std::vector<std::pair<unsigned, unsigned>> bad;
            for (unsigned b = 2; b < points; ++b)
                for (unsigned d : divisors(b))
                    if (points % b % d) bad.push_back({b, d});
            if (bad.empty()) {
                par = points + 1;
                size = points;
                break;
            }
            const auto k = g.pick(bad);
            size = k.first;
            par = k.second;
        }
    }
    c.note(s, ": ", what, " ", points, " points, ", loss, " rate ", lr, " batches of ", size, " parallel ", par);
    const Data X0 = X, Y0 = Y;
    const auto x = e.get();
    bool threw = false;
    const bool shuffle = g.flip();
    try {
        e.sgd(X, Y, lr, size, loss, par, shuffle);
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    c.require(threw, std::string("accepted: ") + what, "an epoch with ", what, " is run");
    c.require(e.get_weights() == p.w && e.get_biases() == p.b && e.get() == x, std::string("touched: ") + what, "a rejected epoch with ", what, " changed the network");
    c.require(X == X0 && Y == Y0, std::string("data: ") + what, "a rejected epoch with ", what, " changed the data");
    c.label(what);
    c.nontrivial();
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "A03";
    p.rule = "random networks, parameters and data; one to three epochs of random batch size, rate, loss, parallelism and shuffling, compared with a reference epoch over the order "
             "the data are left in; calls to be rejected; non-trivial: more batches than epochs and an active node, or a call to reject; counted distinct by choice sequence";
    p.subs = {{"epochs", 20000, 400000, epochs}, {"rejects", 20000, 200000, rejects}};
    p.case_cpu_s = 5;
    p.assumptions = {"gradients are those of the single-point d_loss, decided by A02; with kinked activations a parallel epoch is compared in order and pairing only"};
    return pbt::run(argc, argv, p);
}
