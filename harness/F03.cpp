// F03: functions and kernels can be used from many threads at once.
// FLAGS: -O1 -g1 -fsanitize=thread
#include <cassert>
#include <atomic>
#include <sstream>
#include <thread>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <dcgp/function.hpp>
#include <dcgp/kernel.hpp>
#include <pbt.hpp>

using TS = pagmo::thread_safety;
using pbt::Case;
using pbt::Gen;
using Vec = std::vector<double>;
using Svec = std::vector<std::string>;

struct Num {
    double a = 1;
    Vec w;
    double operator()(const Vec &x) const
    {
        double r = a;
        for (std::size_t i = 0; i < x.size(); ++i) r += x[i] * (w.empty() ? 1. : w[i % w.size()]);
        return r;
    }
    TS get_thread_safety() const
    {
        return TS::constant;
    }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &a &w;
    }
};
static double num_free(const Vec &x)
{
    double r = 0.25;
    for (double v : x) r = r * 0.5 + v;
    return r;
}
struct Str {
    std::string p;
    std::string operator()(const Svec &x) const
    {
        std::string r = p;
        for (auto &s : x) r += "<" + s + ">";
        return r;
    }
    TS get_thread_safety() const
    {
        return TS::constant;
    }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &p;
    }
};
DCGP_S11N_FUNCTION_EXPORT(f03_n, Num, double, const Vec &)
DCGP_S11N_FUNCTION_EXPORT(f03_s, Str, std::string, const Svec &)
using F = dcgp::function<double(const Vec &)>;
using K = dcgp::kernel<double>;

static void shared(Gen &g, Case &c)
{
    const unsigned T = g.u(2, 6);
    Num n;
    n.a = g.in(-9, 9);
    for (unsigned i = g.u(0, 3); i > 0; --i) n.w.push_back(g.in(-5, 5));
    const Str s{g.text("abc+-", 30)};
    const std::string name = g.text("kernel name", 30);
    const bool free = g.chance(1, 3);
    const K k = free ? K(num_free, s, name) : K(n, s, name);
    const F f = free ? F(num_free) : F(n);
    const F empty;
    std::vector<Vec> xs;
    for (unsigned i = 0; i < 4; ++i) {
        Vec x;
        for (unsigned j = g.u(1, 4); j > 0; --j) x.push_back(g.in(-20, 20) * 0.5);
        xs.push_back(x);
    }
    // what one thread gets
    std::vector<double> expect;
    for (auto &x : xs) expect.push_back(free ? num_free(x) : n(x));
    const Svec names = {"x", "y"};
    const std::string text = s(names);
    const TS ts = free ? TS::basic : TS::constant;
    std::vector<std::vector<unsigned>> ops(T);
    std::vector<unsigned> delay(T);
    unsigned total = 0;
    for (unsigned t = 0; t < T; ++t) {
        const unsigned m = g.small(1, 60);
        for (unsigned i = 0; i < m; ++i) ops[t].push_back(g.u(0, 9));
        delay[t] = g.u(0, 1500);
        total += m;
    }
    c.note(T, " threads, ", total, " operations on one kernel named '", name, "' and one function", free ? " (free)" : "");
    c.nontrivial(total > 10);
    std::atomic<unsigned> waiting{0};
    std::vector<std::string> wrong(T);
    std::vector<std::thread> th;
    for (unsigned t = 0; t < T; ++t) {
        th.emplace_back([&, t]() {
            waiting.fetch_add(1);
            while (waiting.load() < T) std::this_thread::yield();
            volatile unsigned z = 0;
            for (unsigned i = 0; i < delay[t]; ++i) z = z + 1;
            for (unsigned i = 0; i < ops[t].size(); ++i) {
                const std::size_t q = (i + t) % xs.size();
                bool ok = true;
                switch (ops[t][i]) {
                    case 0:
                        ok = k(xs[q]) == expect[q];
                        break;
                    case 1:
                        ok = k(names) == text;
                        break;
                    case 2:
                        ok = f(xs[q]) == expect[q];
                        break;
                    case 3: {
                        F copy(f);
                        ok = copy(xs[q]) == expect[q] && copy.get_thread_safety() == ts;
                        break;
                    }
                    case 4: {
                        K copy(k), other;
                        other = copy;
                        ok = other(xs[q]) == expect[q] && other(names) == text && other.get_name() == name;
                        break;
                    }
                    case 5:
                        ok = f.is_valid() && f.is<Num>() == !free && (f.extract<Num>() != nullptr) == !free && f.get_thread_safety() == ts;
                        break;
                    case 6: {
                        std::ostringstream ss;
                        ss << k;
                        ok = ss.str() == name && k.get_name() == name;
                        break;
                    }
                    case 7: {
                        bool thrown = false;
                        try {
                            (void)empty(xs[q]);
                        } catch (const std::runtime_error &) {
                            thrown = true;
                        }
                        ok = thrown;
                        break;
                    }
                    case 8:
                        if (!free) {
                            std::stringstream ss;
                            {
                                boost::archive::text_oarchive oa(ss);
                                oa << k << f;
                            }
                            K k2;
                            F f2;
                            {
                                boost::archive::text_iarchive ia(ss);
                                ia >> k2 >> f2;
                            }
                            ok = k2(xs[q]) == expect[q] && k2(names) == text && f2(xs[q]) == expect[q];
                        }
                        break;
                    default:
                        ok = k({1., 2.}) == (free ? num_free({1., 2.}) : n({1., 2.})) && k.get_thread_safety() == (free ? TS::basic : TS::constant);
                }
                if (!ok && wrong[t].empty()) wrong[t] = "operation " + std::to_string(ops[t][i]);
            }
        });
    }
    for (auto &x : th) x.join();
    for (unsigned t = 0; t < T; ++t) c.require(wrong[t].empty(), "value", "thread ", t, ": ", wrong[t], " gives another result than in one thread");
}
int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "F03";
    p.rule = "two to six threads with random lists of const operations (call, print, copy, assign from, inspect, stream, save) on one kernel and one function, each "
             "result compared with the sequential one, under ThreadSanitizer; non-trivial: more than ten operations in all; counted distinct by choice sequence";
    p.subs = {{"shared", 6000, 120000, shared, true}};
    p.assumptions = {"interleavings are those the operating system gives under random delays; ThreadSanitizer reports unordered conflicting accesses"};
    p.case_cpu_s = 60;
    return pbt::run(argc, argv, p);
}
