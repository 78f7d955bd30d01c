// A02: backpropagation returns the gradient of the loss it returns.
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <net.hpp>
#include <taylor.hpp>

using namespace cgp;
using ev::Ev;
using ev::q;
using E = dcgp::expression_ann;

static void gradient(Gen &g, Case &c)
{
    const Shape s = net_shape(g);
    E e = make<E>(s);
    c.note(s);
    const unsigned past = g.u(0, 3);
    for (unsigned i = 0; i < past; ++i) random_op(g, c, s, e);
    if (g.flip()) e.set(chromosome(g, s));
    Params p = params(g, s);
    const unsigned points = g.small(1, 8);
    const double span = g.chance(1, 6) ? 300 : 2;
    const Data X = data(g, points, s.n, span, false), Y = data(g, points, s.m, 2, g.flip());
    unsigned whole = 0;
    bool ce = g.flip();
    for (unsigned rounds = g.chance(1, 3) ? 2 : 1; rounds > 0; --rounds) {
        e.set_weights(p.w);
        e.set_biases(p.b);
        const auto type = ce ? dcgp::expression<double>::loss_type::CE : dcgp::expression<double>::loss_type::MSE;
        c.trace(": x=", e.get(), ce ? " CE" : " MSE", " weights ", p.w, " biases ", p.b, " points ", X, " labels ", Y);
        const Chrom x = e.get();
        // the loss
        Ev loss(0.);
        bool good = true;
        for (unsigned i = 0; i < points; ++i) {
            loss = loss + loss_ref(network<Ev>(s, x, as<Ev>(X[i]), as<Ev>(p.w), as<Ev>(p.b)), as<Ev>(Y[i]), ce);
            good = good && tame_network(s, x, X[i], p);
        }
        loss = loss / Ev(static_cast<double>(points));
        const unsigned par = g.flip() ? g.pick(divisors(points)) : 0;
        const auto t = e.d_loss(X, Y, type, par);
        const auto &gw = std::get<1>(t);
        const auto &gb = std::get<2>(t);
        c.require(gw.size() == p.w.size() && gb.size() == p.b.size(), "sizes", gw.size(), " and ", gb.size(), " derivatives");
        c.require(ev::matches(std::get<0>(t), loss), ce ? "loss-ce" : "loss-mse", "the loss is ", std::get<0>(t), ", expected ", loss);
        // what the outputs do not depend on has no derivative
        const auto active = reachable(s, x);
        for (unsigned k = s.in(); k < s.nodes(); ++k) {
            if (active.count(k)) continue;
            for (unsigned j = 0; j < s.node_arity(k); ++j)
                c.require(gw[Params::index(s, k, j)] == 0, "inactive", "the weight of input ", j, " of the inactive node ", k, " has derivative ", gw[Params::index(s, k, j)]);
            c.require(gb[k - s.in()] == 0, "inactive", "the bias of the inactive node ", k, " has derivative ", gb[k - s.in()]);
        }
        // the cumulative form
        {
            double v = g.real(-3, 3);
            const double v0 = v;
            std::vector<double> w(gw.size()), b(gb.size()), w0, b0;
            for (auto &z : w) z = g.real(-3, 3);
            for (auto &z : b) z = g.real(-3, 3);
            w0 = w;
            b0 = b;
            const unsigned rep = g.u(1, 2), at = static_cast<unsigned>(g.raw(points - 1));
            const E &k = e;
            for (unsigned i = 0; i < rep; ++i) k.d_loss(v, w, b, X[at], Y[at], type);
            const auto one = e.d_loss({X[at]}, {Y[at]}, type, 0u);
            if (good && !loss.bad) {
                auto close = [&](double a, double b2) { return std::abs(a - b2) <= 1e-9 * (1 + std::abs(a) + std::abs(b2)); };
                c.require(close(v, v0 + rep * std::get<0>(one)), "cumulates", "cumulated ", rep, " times, the loss ", std::get<0>(one), " takes ", v0, " to ", v);
                for (std::size_t i = 0; i < w.size(); ++i)
                    c.require(close(w[i], w0[i] + rep * std::get<1>(one)[i]), "cumulates", "cumulated ", rep, " times, the derivative ", std::get<1>(one)[i], " takes ", w0[i], " to ", w[i]);
                for (std::size_t i = 0; i < b.size(); ++i)
                    c.require(close(b[i], b0[i] + rep * std::get<2>(one)[i]), "cumulates", "cumulated ", rep, " times, the derivative ", std::get<2>(one)[i], " takes ", b0[i], " to ", b[i]);
            }
        }
        c.require(e.get() == x && e.get_weights() == p.w && e.get_biases() == p.b, "changed", "the network changed");
        if (!good || loss.bad || std::abs(loss.v) > 1e8L) {
            c.label("not smooth here");
            break;
        }
        // every derivative
        unsigned ok = 0;
        for (std::size_t i = 0; i < p.w.size() + p.b.size(); ++i) {
            ev::margin() = 1e300;
            const auto d = ev::taylor([&](q h) {
                auto w = as<q>(p.w), b = as<q>(p.b);
                (i < p.w.size() ? w[i] : b[i - p.w.size()]) += h;
                q sum = 0;
                for (unsigned k = 0; k < points; ++k) sum += loss_ref(network<q>(s, x, as<q>(X[k]), w, b), as<q>(Y[k]), ce);
                return sum / q(static_cast<double>(points));
            }, 1e-7);
            const double want = static_cast<double>(d[1]), got = i < p.w.size() ? gw[i] : gb[i - p.w.size()];
            // steep or next to a kink
            if (ev::margin() < 1e-3 || !(std::abs(want) < 1e8) || !(std::abs(static_cast<double>(d[2])) < 1e10)) continue;
            ++ok;
            const double scale = 1 + std::abs(want) + std::abs(static_cast<double>(loss.v)) + static_cast<double>(loss.e) * 1e9;
            c.require(std::abs(got - want) <= 1e-6 * scale, ce ? "gradient-ce" : "gradient-mse", i < p.w.size() ? "weight " : "bias ", i < p.w.size() ? i : i - p.w.size(),
                      " has derivative ", got, ", expected ", want, " with parallelism ", par);
        }
        c.label(ok ? (ce ? "CE" : "MSE") : "not smooth here");
        whole += ok && e.get_active_nodes().back() >= s.in();
        // the same data once more, something else having changed
        switch (g.raw(3)) {
            case 0:
                ce = !ce;
                break;
            case 1:
                e.set(chromosome(g, s));
                break;
            case 2:
                p.w = params(g, s).w;
                break;
            default:
                p.b = params(g, s).b;
        }
    }
    c.nontrivial(whole);
}

static void rejects(Gen &g, Case &c)
{
    const Shape s = net_shape(g);
    E e = make<E>(s);
    const unsigned points = g.small(1, 10);
    Data X = data(g, points, s.n, 2, false), Y = data(g, points, s.m, 2, false);
    const bool ce = g.flip();
    const auto type = ce ? dcgp::expression<double>::loss_type::CE : dcgp::expression<double>::loss_type::MSE;
    const unsigned at = static_cast<unsigned>(g.raw(points - 1));
    std::vector<double> w(n_weights(s), 0.), b(s.r * s.c, 0.);
    unsigned par = 0;
    bool single = false;
    const char *what = "";
    switch (g.raw(7)) {
        case 0:
            what = "no data";
            X.clear();
            Y.clear();
            break;
        case 1:
            what = "fewer labels";
            Y.resize(at);
            break;
        case 2:
            what = "more labels";
            Y.resize(points + g.u(1, 3), Y[0]);
            break;
        case 3:
            what = "impossible split";
            par = points + g.u(1, 5);
            break;
        case 4:
            what = "bad point";
            single = g.flip();
            X[at].resize(g.flip() ? s.n + g.u(1, 3) : g.u(0, s.n - 1), 1.);
            break;
        case 5:
            what = "bad label";
            single = g.flip();
            Y[at].resize(g.flip() ? s.m + g.u(1, 3) : g.u(0, s.m - 1), 1.);
            break;
        case 6:
            what = "bad weight gradient";
            single = true;
            w.resize(g.flip() ? w.size() + g.u(1, 3) : w.size() - 1, 0.);
            break;
        default:
            what = "bad bias gradient";
            single = true;
            b.resize(g.flip() ? b.size() + g.u(1, 3) : b.size() - 1, 0.);
    }
    c.note(s, ": ", what, " ", points, " points, parallel ", par, single ? " one point" : "");
    bool threw = false;
    const auto w0 = w, b0 = b;
    double v = 0.5;
    try {
        if (single)
            static_cast<const E &>(e).d_loss(v, w, b, X[at], Y[at], type);
        else
            e.d_loss(X, Y, type, par);
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    c.require(threw, std::string("accepted: ") + what, "a gradient with ", what, " is computed");
    c.require(v == 0.5 && w == w0 && b == b0, "touched", "a rejected call changed its arguments");
    c.label(what);
    c.nontrivial();
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "A02";
    p.rule = "random networks over all activations with random weights and biases (wild ones too), data and labels; the loss against a reference within a running error bound and "
             "every derivative against interpolation in quadruple precision, for both losses, any parallelism and the cumulative form; calls to be rejected; non-trivial: some "
             "derivative is compared and a node active, or a call to reject; counted distinct by choice sequence";
    p.subs = {{"gradient", 15000, 150000, gradient}, {"rejects", 15000, 100000, rejects}};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
