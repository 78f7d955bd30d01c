// R02: the global random sequence is handed out to threads without loss or repetition.
// FLAGS: -O1 -g1 -fsanitize=thread
#include <atomic>
#include <thread>
#include <unordered_map>
#include <dcgp/rng.hpp>
#include <mt.hpp>
#include <pbt.hpp>

using dcgp::random_device;
using pbt::Case;
using pbt::Gen;

struct Barrier {
    std::atomic<unsigned> waiting{0};
    unsigned n;
    explicit Barrier(unsigned k) : n(k) {}
    void wait()
    {
        waiting.fetch_add(1);
        while (waiting.load() < n) std::this_thread::yield();
    }
};
static void spin(unsigned k)
{
    volatile unsigned x = 0;
    for (unsigned i = 0; i < k; ++i) x = x + 1;
}

// Draws only: the multiset of what the threads got is the next stretch, in order within each thread.
static void draws(Gen &g, Case &c)
{
    const unsigned T = g.u(2, 8);
    const unsigned seed = g.seed();
    const unsigned before = g.u(0, 700);
    std::vector<unsigned> n(T), delay(T), pause(T);
    unsigned total = 0;
    for (unsigned t = 0; t < T; ++t) {
        n[t] = g.small(1, 400);
        delay[t] = g.u(0, 2000);
        pause[t] = g.u(0, 60);
        total += n[t];
    }
    c.note("seed ", seed, ", ", before, " draws first, then ", T, " threads draw ", n);
    c.nontrivial(total > 20);
    random_device::set_seed(seed);
    RefMT ref(seed);
    for (unsigned k = 0; k < before; ++k) {
        const unsigned v = random_device::next();
        c.require(v == ref.next(), "sequence", "sequential draw ", k, " wrong");
    }
    std::vector<std::vector<unsigned>> got(T);
    {
        Barrier bar(T);
        std::vector<std::thread> th;
        for (unsigned t = 0; t < T; ++t) {
            got[t].reserve(n[t]);
            th.emplace_back([&, t]() {
                bar.wait();
                spin(delay[t]);
                for (unsigned k = 0; k < n[t]; ++k) {
                    got[t].push_back(random_device::next());
                    spin(pause[t]);
                }
            });
        }
        for (auto &x : th) x.join();
    }
    std::unordered_map<unsigned, unsigned> at;
    std::vector<unsigned> next(total);
    for (unsigned k = 0; k < total; ++k) {
        next[k] = ref.next();
        if (!at.emplace(next[k], k).second) return; // the stretch itself repeats a number: not decided
    }
    std::vector<char> used(total, 0);
    for (unsigned t = 0; t < T; ++t) {
        long last = -1;
        for (unsigned k = 0; k < got[t].size(); ++k) {
            auto it = at.find(got[t][k]);
            c.require(it != at.end(), "lost", "thread ", t, " drew ", got[t][k], ", which is not in the next ", total, " numbers of the sequence");
            c.require(!used[it->second], "repeated", "number ", it->second, " of the sequence was handed out twice");
            used[it->second] = 1;
            c.require(static_cast<long>(it->second) > last, "order", "thread ", t, " got number ", it->second, " after number ", last);
            last = static_cast<long>(it->second);
        }
    }
    // and the sequence goes on from there
    for (unsigned k = 0; k < 3; ++k) {
        const unsigned v = random_device::next(), e = ref.next();
        c.require(v == e, "after", "the draw after the threads ended is ", v, ", expected ", e);
    }
}

// One thread seeds while others draw: every number belongs to a prefix of the sequence of one of the seeds, prefixes
// without holes, and no thread goes back.
static void seeding(Gen &g, Case &c)
{
    const unsigned T = g.u(1, 6), S = g.u(1, 12);
    const unsigned base = g.seed();
    std::vector<unsigned> n(T), pause(T);
    unsigned total = 0;
    for (unsigned t = 0; t < T; ++t) {
        n[t] = g.small(1, 150);
        pause[t] = g.u(0, 200);
        total += n[t];
    }
    const unsigned gap = g.u(0, 3000), own = g.u(0, 3);
    total += own * S;
    c.note("seed ", base, ", ", T, " threads draw ", n, " while another seeds ", S, " times and draws ", own, " each");
    c.nontrivial(total > 20);
    random_device::set_seed(base);
    std::vector<std::vector<unsigned>> got(T + 1);
    std::vector<unsigned> own_segment; // segment of the seeder's own draws, at least this
    {
        Barrier bar(T + 1);
        std::vector<std::thread> th;
        for (unsigned t = 0; t < T; ++t) {
            th.emplace_back([&, t]() {
                bar.wait();
                for (unsigned k = 0; k < n[t]; ++k) {
                    got[t].push_back(random_device::next());
                    spin(pause[t]);
                }
            });
        }
        th.emplace_back([&]() {
            bar.wait();
            for (unsigned s = 1; s <= S; ++s) {
                spin(gap);
                random_device::set_seed(base + s);
                for (unsigned k = 0; k < own; ++k) {
                    got[T].push_back(random_device::next());
                    own_segment.push_back(s);
                }
            }
        });
        for (auto &x : th) x.join();
    }
    std::unordered_map<unsigned, std::pair<unsigned, unsigned>> at; // number -> segment, index
    for (unsigned s = 0; s <= S; ++s) {
        RefMT r(base + s);
        for (unsigned k = 0; k < total; ++k) {
            if (!at.emplace(r.next(), std::make_pair(s, k)).second) return; // ambiguous: not decided
        }
    }
    std::vector<std::vector<char>> used(S + 1, std::vector<char>(total, 0));
    for (unsigned t = 0; t <= T; ++t) {
        std::pair<long, long> last(-1, -1);
        for (unsigned k = 0; k < got[t].size(); ++k) {
            auto it = at.find(got[t][k]);
            c.require(it != at.end(), "torn", "thread ", t, " drew ", got[t][k], ", which belongs to the sequence of none of the seeds");
            const std::pair<long, long> p(it->second.first, it->second.second);
            c.require(!used[it->second.first][it->second.second], "repeated", "number ", p.second, " of seed ", p.first, " was handed out twice");
            used[it->second.first][it->second.second] = 1;
            c.require(p > last, "order", "thread ", t, " went back from seed ", last.first, " number ", last.second, " to seed ", p.first, " number ", p.second);
            last = p;
            if (t == T) c.require(p.first == static_cast<long>(own_segment[k]), "stale", "the seeding thread drew from the sequence of seed ", p.first, " after seeding ", own_segment[k]);
        }
    }
    for (unsigned s = 0; s <= S; ++s) {
        bool hole = false;
        for (unsigned k = 0; k < total; ++k) {
            if (!used[s][k]) hole = true;
            c.require(!(hole && used[s][k]), "lost", "a number of the sequence of seed ", s, " before number ", k, " was handed to nobody");
        }
    }
}

int main(int argc, char **argv)
{
    if (!RefMT::self_test()) return 2;
    pbt::Property p;
    p.id = "R02";
    p.rule = "random numbers of threads, draws per thread, delays and pauses, with and without a thread seeding meanwhile; the numbers each thread got are matched "
             "against an independent MT19937 (multiset, order within a thread, no holes), under ThreadSanitizer; non-trivial: more than 20 draws in all; "
             "counted distinct by choice sequence";
    p.subs = {{"draws", 4000, 80000, draws, true}, {"seeding", 4000, 80000, seeding, true}};
    p.assumptions = {"interleavings are those the operating system gives under random delays"};
    p.case_cpu_s = 60;
    return pbt::run(argc, argv, p);
}
