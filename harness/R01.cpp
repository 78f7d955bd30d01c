// R01: the global random sequence is the 32-bit Mersenne Twister of the seed.
#include <dcgp/rng.hpp>
#include <mt.hpp>
#include <pbt.hpp>

using dcgp::random_device;
using pbt::Case;
using pbt::Gen;

static std::uint32_t gen_seed(Gen &g, std::uint32_t last)
{
    switch (g.u(0, 4)) {
        case 0:
            return static_cast<std::uint32_t>(g.raw(5u));
        case 1:
            return 0xffffffffu - static_cast<std::uint32_t>(g.raw(5u));
        case 2:
            return std::uint32_t(1) << g.u(0, 31);
        case 3:
            return last;
        default:
            return static_cast<std::uint32_t>(g.raw(0xffffffffu));
    }
}
static unsigned gen_count(Gen &g)
{
    switch (g.u(0, 3)) {
        case 0:
            return g.u(0, 8);
        case 1: // around the size of the state
            return 620 + g.u(0, 10);
        case 2:
            return g.u(0, 200);
        default:
            return g.u(0, 2600);
    }
}
static void history(Gen &g, Case &c)
{
    std::uint32_t last = 0;
    const unsigned n = g.small(1, 8);
    unsigned reseeds = 0, draws = 0, seeds = 0;
    RefMT ref(0);
    // whatever happened before
    for (unsigned k = g.u(0, 3); k > 0; --k) (void)random_device::next();
    for (unsigned q = 0; q < n; ++q) {
        last = gen_seed(g, last);
        random_device::set_seed(last);
        ref.seed(last);
        ++seeds;
        if (g.chance(1, 4)) { // seeded twice in a row
            last = gen_seed(g, last);
            random_device::set_seed(last);
            ref.seed(last);
        }
        reseeds += draws > 0;
        const unsigned m = gen_count(g);
        c.note("seed ", last, " and ", m, " draws");
        for (unsigned k = 0; k < m; ++k) {
            const unsigned v = k % 3 == 2 ? random_device().next() : random_device::next();
            const unsigned e = ref.next();
            ++draws;
            c.require(v == e, "sequence", "draw ", k, " after seed ", last, " is ", v, ", the Mersenne Twister gives ", e);
        }
    }
    c.nontrivial(draws > 4 && seeds > 1);
    if (draws > 624) c.label("more draws than the state has words");
    if (reseeds) c.label("seeded again after draws");
}
// One long sequence.
static void longrun(Gen &g, Case &c)
{
    const std::uint32_t s = gen_seed(g, 7);
    const unsigned m = 20000 + g.u(0, 100000);
    c.note("seed ", s, " and ", m, " draws");
    c.nontrivial();
    random_device::set_seed(s);
    RefMT ref(s);
    for (unsigned k = 0; k < m; ++k) {
        const unsigned v = random_device::next(), e = ref.next();
        c.require(v == e, "sequence", "draw ", k, " after seed ", s, " is ", v, ", the Mersenne Twister gives ", e);
    }
}
// The library's own engine type used with the standard distributions does not disturb the sequence.
static void isolation(Gen &g, Case &c)
{
    const std::uint32_t s = gen_seed(g, 7);
    random_device::set_seed(s);
    RefMT ref(s);
    const unsigned m = g.small(1, 60);
    c.note("seed ", s, ", ", m, " draws, engines seeded from them in between");
    c.nontrivial(m > 2);
    for (unsigned k = 0; k < m; ++k) {
        const unsigned v = random_device::next(), e = ref.next();
        c.require(v == e, "sequence", "draw ", k, " after seed ", s, " is ", v, ", expected ", e);
        if (k % 2) {
            dcgp::detail::random_engine_type eng(v);
            RefMT r2(v);
            for (int z = 0; z < 5; ++z) {
                const std::uint32_t a = static_cast<std::uint32_t>(eng()), b = r2.next();
                c.require(a == b, "engine", "an engine seeded with ", v, " gives ", a, ", the Mersenne Twister ", b);
            }
        }
    }
}

int main(int argc, char **argv)
{
    if (!RefMT::self_test()) return 2;
    pbt::Property p;
    p.id = "R01";
    p.rule = "random histories of seeding (small, large, power of two, repeated and arbitrary seeds) and drawing (up to 2600 at a time, around multiples of the "
             "624 words of state; long runs up to 120000), every number compared with an independent MT19937; non-trivial: at least two seedings and five "
             "draws, or a long run; counted distinct by choice sequence";
    p.subs = {{"history", 60000, 1200000, history}, {"longrun", 500, 10000, longrun}, {"isolation", 30000, 300000, isolation}};
    p.assumptions = {"the reference Mersenne Twister is right: it reproduces the check value of the C++ standard"};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
