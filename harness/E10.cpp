// E10: an expression is a deterministic function of its arguments and seed; copies are independent.
// FLAGS: -O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
#include <dcgp/rng.hpp>

#include <anyexpr.hpp>
#include <mt.hpp>

using namespace cgp;

// Something unrelated happens.
template <typename E>
static void noise(Gen &g, Case &c)
{
    switch (g.raw(4)) {
        case 0:
            break;
        case 1:
            dcgp::random_device::next();
            break;
        case 2:
            dcgp::random_device::set_seed(g.seed());
            break;
        case 3: {
            const Shape o = shape(g, pool_of<E>(), Limits{2, 0, 2, 2, 3, 2, 3});
            E other = make<E>(o);
            Case quiet;
            random_op(g, quiet, o, other);
            break;
        }
        default: {
            std::mt19937 e(1);
            e();
            std::rand();
        }
    }
    (void)c;
}

// Two expressions, built alike, put through the same operations.
template <typename E>
static void twins(Gen &g, Case &c)
{
    const Shape s = shape(g, pool_of<E>(), Limits{3, is_plain<E> ? 3u : 0u, 3, 3, 4, 3, 5});
    c.note(s);
    E a = make<E>(s);
    noise<E>(g, c);
    E b = make<E>(s);
    same_expressions(g, c, s, a, b, "when built");
    const unsigned ops = g.u(1, 8);
    for (unsigned i = 0; i < ops; ++i) {
        std::string n;
        const auto f = draw_op<E>(g, s, n);
        c.trace(" ", n);
        f(a);
        noise<E>(g, c);
        // looking changes nothing
        if (g.chance(1, 3)) {
            const E &k = a;
            std::vector<value_of<E>> in(s.n, value_of<E>(0.5));
            k(in);
            whole(k);
        }
        f(b);
        c.require(a.get() == b.get(), "twins", n, " leads to ", a.get(), " and ", b.get());
    }
    same_expressions(g, c, s, a, b, "at the end");
    c.nontrivial(ops > 1);
}
// Seeded alike, two expressions with different pasts have the same future once they stand at the same place; so has one that is seeded again.
template <typename E>
static void reseeded(Gen &g, Case &c)
{
    Shape s = shape(g, pool_of<E>(), Limits{3, is_plain<E> ? 3u : 0u, 3, 3, 4, 3, 5});
    c.note(s);
    E a = make<E>(s);
    s.seed = g.seed();
    E b = make<E>(s);
    for (unsigned i = g.u(0, 3); i > 0; --i) random_op(g, c, s, a);
    for (unsigned i = g.u(0, 3); i > 0; --i) random_op(g, c, s, b);
    // the same place
    const auto x = chromosome(g, s);
    auto place = [&](E &e) {
        e.set(x);
        if constexpr (is_plain<E>) {
            e.set_eph_val(std::vector<value_of<E>>(s.n_eph, value_of<E>(0.5)));
            std::vector<std::string> names;
            for (unsigned i = 0; i < s.n_eph; ++i) names.push_back("k" + std::to_string(i));
            e.set_eph_symb(names);
        } else {
            e.set_weights(std::vector<value_of<E>>(e.get_weights().size(), value_of<E>(0.5)));
        }
        if constexpr (is_net<E>) e.set_biases(std::vector<double>(e.get_biases().size(), -0.5));
    };
    place(a);
    place(b);
    const long seed = static_cast<long>(g.seed());
    c.trace(" seed ", seed);
    a.seed(seed);
    b.seed(seed);
    const unsigned ops = g.u(1, 5);
    bool random = false;
    std::vector<std::function<void(E &)>> path;
    std::vector<Chrom> at;
    for (unsigned i = 0; i < ops; ++i) {
        std::string n;
        path.push_back(draw_op<E>(g, s, n));
        c.trace(" both:", n);
        const auto was = a.get();
        path.back()(a);
        path.back()(b);
        random = random || (n.find("mutate") == 0 && a.get() != was);
        c.require(a.get() == b.get(), "seeded alike", n, " leads to ", a.get(), " and ", b.get());
        at.push_back(a.get());
    }
    same_expressions(g, c, s, a, b, "seeded alike");
    // the same again
    place(a);
    a.seed(seed);
    for (unsigned i = 0; i < ops; ++i) {
        path[i](a);
        c.require(a.get() == at[i], "seeded again", "seeded again, step ", i, " leads to ", a.get(), " and not to ", at[i]);
    }
    same_expressions(g, c, s, a, b, "seeded again");
    c.nontrivial(random);
}
// Copies: each follows its own path, as if the other was not there.
template <typename E>
static void copies(Gen &g, Case &c)
{
    const Shape s = shape(g, pool_of<E>(), Limits{3, is_plain<E> ? 3u : 0u, 3, 3, 4, 3, 5});
    c.note(s);
    E a = make<E>(s), ref = make<E>(s);
    const unsigned past = g.u(0, 4);
    for (unsigned i = 0; i < past; ++i) twin_op(g, c, s, a, ref);
    // the copy
    const auto how = g.raw(4);
    Case quiet;
    Shape s2 = s;
    if (g.flip())
        s2.seed = g.seed();
    else
        s2 = shape(g, pool_of<E>(), Limits{2, is_plain<E> ? 2u : 0u, 2, 2, 2, 2, 2});
    E b = how == 0 ? E(a) : make<E>(s2);
    // the one that will be overwritten may have been in use
    if (how != 0 && g.flip()) b(std::vector<value_of<E>>(s2.n, value_of<E>(0.25)));
    if (how == 1) b = a;
    if (how == 2) {
        E t(a);
        b = std::move(t);
    }
    if (how == 3) {
        E t(a);
        E u(std::move(t));
        b = u;
    }
    if (how == 4) {
        b = a;
        const E &self = b;
        b = self;
    }
    c.trace(" copied(", how, ")");
    same_expressions(g, c, s, a, b, "after copying");
    // one of them goes on alone, the other must not notice
    E &walker = g.flip() ? a : b;
    E &sitter = &walker == &a ? b : a;
    const auto before = whole(sitter);
    const unsigned alone = g.u(0, 4);
    for (unsigned i = 0; i < alone; ++i) random_op(g, c, s, walker);
    c.require(whole(sitter) == before, "dependent", "changing one of original and copy changed the other");
    same_expressions(g, c, s, sitter, ref, "the one left alone");
    const unsigned future = g.u(0, 5);
    for (unsigned i = 0; i < future; ++i) {
        twin_op(g, c, s, sitter, ref);
        c.require(sitter.get() == ref.get(), "copy-future", "step ", i, " leads to ", sitter.get(), " and for one never copied to ", ref.get());
    }
    same_expressions(g, c, s, sitter, ref, "at the end");
    c.nontrivial(alone && future);
}
// Without a seed, an expression takes the next number of the global sequence as its seed, and no other.
template <typename E>
static void default_seed(Gen &g, Case &c)
{
    Shape s = shape(g, pool_of<E>(), Limits{3, is_plain<E> ? 3u : 0u, 3, 3, 4, 3, 5});
    const unsigned global = g.seed();
    RefMT ref(global);
    dcgp::random_device::set_seed(global);
    const unsigned skip = g.small(0, 5);
    for (unsigned i = 0; i < skip; ++i) {
        ref.next();
        dcgp::random_device::next();
    }
    s.seed = ref.next();
    const unsigned after = ref.next();
    c.note(s, " global seed ", global, " after ", skip, " draws");
    dcgp::kernel_set<value_of<E>> ks(s.kernels);
    const bool default_all = g.chance(1, 6);
    std::unique_ptr<E> e;
    if constexpr (is_plain<E>) {
        if (s.uniform)
            e.reset(new E(s.n, s.m, s.r, s.c, s.l, s.arity[0], ks(), s.n_eph));
        else
            e.reset(new E(s.n, s.m, s.r, s.c, s.l, s.arity, ks(), s.n_eph));
    } else {
        if (s.uniform)
            e.reset(new E(s.n, s.m, s.r, s.c, s.l, s.arity[0], ks()));
        else
            e.reset(new E(s.n, s.m, s.r, s.c, s.l, s.arity, ks()));
    }
    c.require(dcgp::random_device::next() == after, "draws", "building without a seed did not take exactly one number of the global sequence");
    E seeded = make<E>(s);
    same_expressions(g, c, s, *e, seeded, "built with the next number as seed");
    for (unsigned i = 0; i < 3; ++i) {
        twin_op(g, c, s, *e, seeded);
        c.require(e->get() == seeded.get(), "default-seed-future", "an operation leads to ", e->get(), " and, with the explicit seed, to ", seeded.get());
    }
    if (default_all) {
        dcgp::random_device::set_seed(global);
        E d;
        Shape one;
        one.arity = d.get_arity(); // whatever the default is
        one.kernels = {"sum"};
        one.seed = RefMT(global).next();
        same_expressions(g, c, one, d, make<E>(one), "built without arguments");
        c.label("no arguments");
    }
    c.nontrivial();
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "E10";
    p.rule = "pairs of expressions built alike, and copies made in every way, put through the same or different random operations with unrelated activity in between (the global "
             "sequence drawn and seeded, other expressions built); everything observable is compared exactly; expressions with different pasts brought to the same place and seeded alike, and one seeded again; expressions built without a seed against ones built with the next "
             "number of an independent Mersenne Twister; non-trivial: several operations (twins), a path alone and a common one (copies), a mutation that changed something (reseeded), any case (default seed); counted "
             "distinct by choice sequence";
    p.subs = {{"twins", 10000, 150000, twins<dcgp::expression<double>>},
              {"twins-weighted", 6000, 80000, twins<dcgp::expression_weighted<double>>},
              {"twins-network", 8000, 100000, twins<dcgp::expression_ann>},
              {"copies", 10000, 150000, copies<dcgp::expression<double>>},
              {"copies-weighted", 6000, 80000, copies<dcgp::expression_weighted<double>>},
              {"copies-network", 8000, 100000, copies<dcgp::expression_ann>},
              {"reseeded", 6000, 80000, reseeded<dcgp::expression<double>>},
              {"reseeded-weighted", 4000, 50000, reseeded<dcgp::expression_weighted<double>>},
              {"reseeded-network", 4000, 50000, reseeded<dcgp::expression_ann>},
              {"default-seed", 6000, 80000, default_seed<dcgp::expression<double>>},
              {"default-seed-weighted", 4000, 50000, default_seed<dcgp::expression_weighted<double>>},
              {"default-seed-network", 4000, 50000, default_seed<dcgp::expression_ann>}};
    p.assumptions = {"AuDi is replaced by a stand-in with the same interface"};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
