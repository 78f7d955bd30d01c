// A small property-based testing engine.
//
// A test case is a sequence of integer choices. `Gen` hands them out: freshly drawn from a seeded generator, or
// replayed from a recorded sequence. Everything random in a property goes through `Gen`, so that a case is a pure
// function of its choices: that gives replay files (the choices), and shrinking (shorter and smaller choice
// sequences) for every generator at no cost.
//
// Cases run in forked workers, so a crash, an abort, a sanitizer report or a hang of the code under test is just one
// more kind of failing case. A failure is shrunk, replayed, and only then reported.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
inline std::uint64_t mix(std::uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline std::uint64_t hash_str(const std::string &s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return mix(h);
}

// ------------------------------------------------------------------------------------------------ choice source
// Where a forked case leaves its choices as it draws them, so that they survive its death.
struct Tap {
    static constexpr std::size_t cap = 1u << 18, tcap = 4096;
    std::uint64_t n;
    std::uint64_t v[cap];
    char text[tcap]; // the words noted so far
};
inline Tap *&tap()
{
    static Tap *t = nullptr;
    return t;
}

class Gen
{
public:
    explicit Gen(std::uint64_t seed) : m_state(seed) {}
    explicit Gen(std::vector<std::uint64_t> choices) : m_replay(true), m_in(std::move(choices)) {}

    // An integer in [0, max], 0 being the simplest.
    std::uint64_t raw(std::uint64_t max)
    {
        std::uint64_t v;
        if (m_replay) {
            v = m_pos < m_in.size() ? m_in[m_pos] : 0u;
            if (v > max) v = max;
        } else {
            const std::uint64_t r = next64();
            v = max == std::numeric_limits<std::uint64_t>::max() ? r : r % (max + 1u);
        }
        ++m_pos;
        m_out.push_back(v);
        if (Tap *t = tap()) {
            if (t->n < Tap::cap) t->v[t->n++] = v;
        }
        return v;
    }
    // An integer in [lo, hi]; shrinks towards lo.
    template <typename I = int>
    I in(I lo, I hi)
    {
        return static_cast<I>(lo + static_cast<I>(raw(static_cast<std::uint64_t>(hi - lo))));
    }
    unsigned u(unsigned lo, unsigned hi)
    {
        return in<unsigned>(lo, hi);
    }
    // As in(), but half of the draws stay in the lower quarter of the range.
    unsigned small(unsigned lo, unsigned hi)
    {
        if (hi <= lo) return lo;
        if (raw(1u) == 0u) return lo + static_cast<unsigned>(raw((hi - lo + 3u) / 4u));
        return lo + static_cast<unsigned>(raw(hi - lo));
    }
    // True with probability num / den; shrinks towards false.
    bool chance(unsigned num, unsigned den)
    {
        return raw(den - 1u) >= den - num;
    }
    bool flip()
    {
        return raw(1u) == 1u;
    }
    template <typename T>
    const T &pick(const std::vector<T> &v)
    {
        return v[static_cast<std::size_t>(raw(v.size() - 1u))];
    }
    // A real in [lo, hi]: half of the draws on a coarse grid (which includes both ends and, if inside, 0), the
    // others anywhere.
    double real(double lo, double hi)
    {
        if (raw(1u) == 0u) {
            const auto k = raw(16u);
            if (k == 0u) return lo <= 0. && hi >= 0. ? 0. : lo;
            return lo + (hi - lo) * (static_cast<double>(k) / 16.);
        }
        const double t = static_cast<double>(raw((std::uint64_t(1) << 32) - 1u)) / 4294967295.;
        return lo + (hi - lo) * t;
    }
    // Any double at all, specials included.
    double any_double()
    {
        static const std::vector<double> sp
            = {0.,     1.,     -1.,   0.5,   2.,    -0.,   1e-300, -1e-300, 1e300, -1e300, 5e-324, 1e-8, 1e8,
               -1e8,   710.,   -710., 1e16,  3.,    -3.,   std::numeric_limits<double>::infinity(),
               -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(),
               std::numeric_limits<double>::max(), std::numeric_limits<double>::min()};
        switch (raw(3u)) {
            case 0u:
                return real(-3., 3.);
            case 1u:
                return pick(sp);
            case 2u:
                return real(-1000., 1000.);
            default: {
                const std::uint64_t b = raw(std::numeric_limits<std::uint64_t>::max());
                double d;
                std::memcpy(&d, &b, sizeof d);
                return d;
            }
        }
    }
    std::string text(const std::string &alphabet, unsigned max_len)
    {
        const unsigned n = small(0, max_len);
        std::string s;
        for (unsigned i = 0; i < n; ++i) s += alphabet[static_cast<std::size_t>(raw(alphabet.size() - 1u))];
        return s;
    }
    // A seed for the code under test.
    unsigned seed()
    {
        if (raw(3u) == 0u) return static_cast<unsigned>(raw(3u));
        return static_cast<unsigned>(raw(0xffffffffu));
    }

    const std::vector<std::uint64_t> &record() const
    {
        return m_out;
    }

private:
    std::uint64_t next64()
    {
        m_state += 0x9e3779b97f4a7c15ull;
        std::uint64_t x = m_state;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    bool m_replay = false;
    std::uint64_t m_state = 0;
    std::vector<std::uint64_t> m_in, m_out;
    std::size_t m_pos = 0;
};

// --------------------------------------------------------------------------------------------------------- cases
struct Failure {
    std::string key; // what fails, independently of the particular input: matched against the known findings
    std::string msg;
};

class Case
{
public:
    // Words describing the case, shown in samples and replay files.
    template <typename... A>
    Case &note(const A &...a)
    {
        std::ostringstream ss;
        ss.precision(17);
        (void)std::initializer_list<int>{(put(ss, a), 0)...};
        if (!m_notes.empty()) m_notes += "; ";
        m_notes += ss.str();
        expose();
        return *this;
    }
    // Words added to the last note.
    template <typename... A>
    Case &trace(const A &...a)
    {
        std::ostringstream ss;
        ss.precision(17);
        (void)std::initializer_list<int>{(put(ss, a), 0)...};
        m_notes += ss.str();
        expose();
        return *this;
    }
    void label(const std::string &l)
    {
        m_labels.insert(l);
    }
    void nontrivial(bool b = true)
    {
        m_nontrivial = m_nontrivial || b;
    }
    template <typename... A>
    [[noreturn]] void fail(const std::string &key, const A &...a)
    {
        std::ostringstream ss;
        ss.precision(17);
        (void)std::initializer_list<int>{(put(ss, a), 0)...};
        throw Failure{key, ss.str()};
    }
    template <typename... A>
    void require(bool ok, const std::string &key, const A &...a)
    {
        if (!ok) fail(key, a...);
    }
    const std::string &notes() const
    {
        return m_notes;
    }
    const std::set<std::string> &labels() const
    {
        return m_labels;
    }
    bool is_nontrivial() const
    {
        return m_nontrivial;
    }

    template <typename T>
    static void put(std::ostream &os, const T &x)
    {
        os << x;
    }
    template <typename T>
    static void put(std::ostream &os, const std::vector<T> &v)
    {
        os << '[';
        for (std::size_t i = 0; i < v.size(); ++i) {
            if (i) os << ',';
            if (i == 40u && v.size() > 44u) {
                os << "...(" << v.size() << ")";
                break;
            }
            put(os, static_cast<const T &>(v[i]));
        }
        os << ']';
    }

private:
    void expose() const
    {
        if (Tap *t = tap()) {
            const std::size_t n = std::min(m_notes.size(), Tap::tcap - 1u);
            std::memcpy(t->text, m_notes.data(), n);
            t->text[n] = 0;
        }
    }
    std::string m_notes;
    std::set<std::string> m_labels;
    bool m_nontrivial = false;
};

using Body = std::function<void(Gen &, Case &)>;
struct Sub {
    std::string name;
    std::uint64_t quick, thorough; // number of cases
    Body body;
    bool racy = false; // outcome may depend on scheduling: replays need not all fail
};

struct Property {
    std::string id;
    std::string rule; // how cases are made, and when one is non-trivial
    std::vector<Sub> subs;
    double case_cpu_s = 30.; // CPU seconds after which one case counts as a hang
    std::vector<std::string> assumptions;
    std::string level = "exploration";
};

// ------------------------------------------------------------------------------------------------------- details
namespace detail
{
inline std::string json_str(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}
inline double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

struct Outcome {
    int status = 0; // 0 pass, 1 fail
    std::string key, msg, notes;
    std::vector<std::uint64_t> record;
    std::set<std::string> labels;
    bool nontrivial = false;
};

inline Outcome run_here(const Sub &s, Gen &g)
{
    Outcome o;
    Case c;
    try {
        s.body(g, c);
    } catch (const Failure &f) {
        o.status = 1;
        o.key = f.key;
        o.msg = f.msg;
    } catch (const std::exception &e) {
        o.status = 1;
        o.key = "unexpected-exception";
        o.msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        o.status = 1;
        o.key = "unexpected-exception";
        o.msg = "unexpected exception of unknown type";
    }
    o.notes = c.notes();
    o.labels = c.labels();
    o.nontrivial = c.is_nontrivial();
    o.record = g.record();
    return o;
}

inline void arm(double cpu_s)
{
    struct itimerval t;
    std::memset(&t, 0, sizeof t);
    t.it_value.tv_sec = static_cast<long>(cpu_s);
    t.it_value.tv_usec = static_cast<long>((cpu_s - std::floor(cpu_s)) * 1e6);
    setitimer(ITIMER_PROF, &t, nullptr);
}
inline void on_prof(int)
{
    _exit(97);
}

inline std::string read_file(const std::string &p)
{
    std::ifstream f(p, std::ios::binary);
    std::ostringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

// Runs one case in a child of its own.
// Cases to run first in the same process, for failures that need what earlier cases left behind.
using Prelude = std::vector<std::pair<const Sub *, std::uint64_t>>; // (sub-check, seed of the case)

inline Outcome run_forked(const Sub &s, const std::vector<std::uint64_t> *choices, std::uint64_t seed, double cpu_s,
                          const std::string &tmp, const Prelude &before = {})
{
    const std::string out = tmp + "/one.out", err = tmp + "/one.err", rec = tmp + "/one.rec";
    static Tap *shared = static_cast<Tap *>(
        mmap(nullptr, sizeof(Tap), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    shared->n = 0;
    shared->text[0] = 0;
    std::remove(out.c_str());
    std::fflush(nullptr);
    auto drawn = []() { return std::vector<std::uint64_t>(shared->v, shared->v + shared->n); };
    const pid_t p = fork();
    if (p == 0) {
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        signal(SIGPROF, on_prof);
        for (const auto &b : before) {
            arm(cpu_s);
            Gen bg(b.second);
            run_here(*b.first, bg);
        }
        tap() = shared;
        arm(cpu_s);
        Gen g = choices ? Gen(*choices) : Gen(seed);
        Outcome o = run_here(s, g);
        arm(0.);
        std::ofstream f(out);
        f << o.status << '\n' << o.record.size();
        for (auto x : o.record) f << ' ' << x;
        f << '\n' << o.key << '\n' << o.msg.size() << '\n' << o.msg << '\n' << o.notes.size() << '\n' << o.notes << '\n';
        f.close();
        _exit(0);
    }
    int st = 0;
    const double limit = now() + 60. + 20. * cpu_s + 0.01 * static_cast<double>(before.size()); // a blocked (not spinning) case
    for (;;) {
        const pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() > limit) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            Outcome o;
            o.status = 1;
            o.key = "hang";
            o.msg = "the case did not finish (blocked)";
            o.record = drawn();
            o.notes = shared->text;
            return o;
        }
        usleep(500);
    }
    Outcome o;
    std::ifstream f(out);
    std::size_t n = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && (f >> o.status >> n)) {
        o.record.resize(n);
        for (auto &x : o.record) f >> x;
        f.ignore();
        std::getline(f, o.key);
        auto get = [&f]() {
            std::size_t m = 0;
            f >> m;
            f.ignore();
            std::string s(m, ' ');
            f.read(&s[0], static_cast<std::streamsize>(m));
            return s;
        };
        o.msg = get();
        o.notes = get();
        return o;
    }
    o.status = 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
        o.key = "hang";
        o.msg = "the case used more CPU time than any case may";
    } else {
        o.key = "crash";
        std::ostringstream ss;
        if (WIFSIGNALED(st)) {
            ss << "killed by signal " << WTERMSIG(st);
        } else {
            ss << "exit status " << WEXITSTATUS(st);
        }
        std::string e = read_file(err);
        // keep the informative lines of an assertion or sanitizer report
        std::istringstream es(e);
        std::string l, keep;
        while (std::getline(es, l) && keep.size() < 1500) {
            if (l.find("ssertion") != std::string::npos || l.find("ERROR:") != std::string::npos
                || l.find("runtime error") != std::string::npos || l.find("    #") != std::string::npos
                || l.find("terminate") != std::string::npos || l.find("WARNING:") != std::string::npos) {
                keep += "\n    " + l;
            }
        }
        ss << keep;
        o.msg = ss.str();
    }
    o.record = drawn();
    o.notes = shared->text;
    return o;
}

inline bool simpler(const std::vector<std::uint64_t> &a, const std::vector<std::uint64_t> &b)
{
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

inline Outcome shrink(const Sub &s, Outcome best, double cpu_s, const std::string &tmp, double budget_s)
{
    const double end = now() + budget_s;
    const std::string key = best.key;
    unsigned tries = 0;
    auto attempt = [&](const std::vector<std::uint64_t> &c) {
        if (now() > end || tries > 4000u) return false;
        ++tries;
        Outcome o = run_forked(s, &c, 0, cpu_s, tmp);
        if (o.status && o.key == key) {
            if (simpler(o.record, best.record)) {
                best = o;
                return true;
            }
        }
        return false;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (std::size_t len : {64u, 32u, 16u, 8u, 4u, 2u, 1u}) {
            for (std::size_t i = 0; i + len <= best.record.size() && now() < end;) {
                auto c = best.record;
                c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len));
                if (attempt(c)) {
                    progress = true;
                } else {
                    ++i;
                }
            }
        }
        for (std::size_t len : {16u, 4u, 1u}) {
            for (std::size_t i = 0; i + len <= best.record.size() && now() < end; ++i) {
                auto c = best.record;
                bool any = false;
                for (std::size_t k = i; k < i + len; ++k) {
                    any = any || c[k] != 0u;
                    c[k] = 0u;
                }
                if (any && attempt(c)) progress = true;
            }
        }
        for (std::size_t i = 0; i < best.record.size() && now() < end; ++i) {
            std::uint64_t lo = 0;
            while (i < best.record.size() && lo < best.record[i] && now() < end) {
                auto c = best.record;
                const std::uint64_t mid = lo + (c[i] - lo) / 2u;
                c[i] = mid;
                if (attempt(c)) {
                    progress = true;
                } else {
                    if (mid == lo) {
                        break;
                    }
                    lo = mid;
                }
            }
        }
    }
    return best;
}

struct Known {
    std::string key, text;
};
// Lines of the known-findings file:  finding: property=<id> key=<sub>/<key> <text>
inline std::vector<Known> load_known(const std::string &path, const std::string &id)
{
    std::vector<Known> r;
    std::ifstream f(path);
    std::string l;
    const std::string head = "finding: property=" + id + " key=";
    while (std::getline(f, l)) {
        if (l.compare(0, head.size(), head) != 0) continue;
        const auto rest = l.substr(head.size());
        const auto sp = rest.find(' ');
        r.push_back({rest.substr(0, sp), sp == std::string::npos ? "" : rest.substr(sp + 1u)});
    }
    return r;
}

struct Shared {
    std::atomic<std::uint64_t> next;
    std::atomic<int> stop;
    struct W {
        std::atomic<std::int64_t> sub, idx;
    } w[64];
};
} // namespace detail

// ---------------------------------------------------------------------------------------------------------- main
inline int run(int argc, char **argv, const Property &p)
{
    using namespace detail;
    const double t0 = now();
    const char *vs = std::getenv("VERIF_SEED"), *vt = std::getenv("VERIF_TIER"), *root = std::getenv("VERIF_ROOT");
    const std::uint64_t seed = vs && *vs ? std::strtoull(vs, nullptr, 10) : 1u;
    const bool thorough = vt && std::string(vt) == "thorough";
    const std::string base = root ? root : "/verif";
    double budget = thorough ? 780. : 300.;
    if (const char *b = std::getenv("VERIF_BUDGET")) budget = std::atof(b);
    double scale = 1.;
    if (const char *b = std::getenv("VERIF_SCALE")) scale = std::atof(b);
    const char *only = std::getenv("VERIF_SUB");

    char tmpl[] = "/tmp/pbt.XXXXXX";
    const std::string tmp = mkdtemp(tmpl);
    auto cleanup = [&tmp]() {
        for (const char *f : {"/one.out", "/one.err", "/one.rec"}) std::remove((tmp + f).c_str());
        for (int w = 0; w < 64; ++w) {
            std::remove((tmp + "/w" + std::to_string(w)).c_str());
            std::remove((tmp + "/e" + std::to_string(w)).c_str());
        }
        rmdir(tmp.c_str());
    };

    // ---- replay of one file
    if (argc >= 3 && std::string(argv[1]) == "--replay") {
        std::ifstream f(argv[2]);
        std::string word, sub;
        std::vector<std::uint64_t> ch;
        Prelude before;
        while (f >> word) {
            if (word == "sub") {
                f >> sub;
            } else if (word == "choices") {
                std::size_t n;
                f >> n;
                ch.resize(n);
                for (auto &x : ch) f >> x;
            } else if (word == "prelude") {
                std::size_t n;
                f >> n;
                for (std::size_t i = 0; i < n; ++i) {
                    std::string name;
                    std::uint64_t sd = 0;
                    f >> name >> sd;
                    for (const auto &s : p.subs) {
                        if (s.name == name) before.emplace_back(&s, sd);
                    }
                }
            } else {
                std::getline(f, word);
            }
        }
        for (const auto &s : p.subs) {
            if (s.name == sub) {
                Outcome o = run_forked(s, &ch, 0, p.case_cpu_s, tmp, before);
                std::cout << "case: " << o.notes << "\n" << (o.status ? "FAILS: " + o.key + ": " + o.msg : "passes") << "\n";
                cleanup();
                if (o.status) std::cout << "VIOLATION property=" << p.id << " replay=" << argv[2] << "\n";
                return o.status ? 1 : 0;
            }
        }
        std::cout << "no such sub-check: " << sub << "\n";
        cleanup();
        return 2;
    }

    const auto known = load_known(base + "/known_findings.txt", p.id);
    auto is_known = [&known](const std::string &k) {
        for (const auto &x : known) {
            if (x.key == k) return true;
        }
        return false;
    };

    struct Job {
        std::size_t sub;
        std::uint64_t n;
    };
    std::vector<std::uint64_t> count(p.subs.size()), first(p.subs.size());
    std::uint64_t total = 0;
    for (std::size_t i = 0; i < p.subs.size(); ++i) {
        double n = static_cast<double>(thorough ? p.subs[i].thorough : p.subs[i].quick) * scale;
        count[i] = only && p.subs[i].name != only ? 0u : std::max<std::uint64_t>(1u, static_cast<std::uint64_t>(n));
        total += count[i];
    }
    // Interleave the sub-checks so that a budget cut shortens all of them alike: case k of N of a sub-check sits at
    // position (k + 1/2) / N.
    struct Slot {
        double at;
        std::uint32_t sub, idx;
    };
    std::vector<Slot> slots;
    slots.reserve(total);
    for (std::size_t i = 0; i < p.subs.size(); ++i) {
        for (std::uint64_t k = 0; k < count[i]; ++k) {
            slots.push_back({(static_cast<double>(k) + 0.5) / static_cast<double>(count[i]), static_cast<std::uint32_t>(i),
                             static_cast<std::uint32_t>(k)});
        }
    }
    std::stable_sort(slots.begin(), slots.end(), [](const Slot &a, const Slot &b) { return a.at < b.at; });
    auto case_seed = [&](std::size_t s, std::uint64_t k) { return mix(mix(seed) ^ hash_str(p.id + "/" + p.subs[s].name) ^ mix(k * 2u + 1u)); };

    auto *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (sh) Shared;
    sh->next = 0;
    sh->stop = 0;
    // Which process ran which case.
    auto *owner = static_cast<std::uint16_t *>(
        mmap(nullptr, (slots.size() + 1u) * sizeof(std::uint16_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::uint16_t incarnation = 0;

    unsigned nw = 8;
    if (const char *b = std::getenv("VERIF_JOBS")) nw = static_cast<unsigned>(std::atoi(b));
    nw = std::max(1u, std::min(nw, 32u));
    const double end = t0 + budget;

    auto worker = [&](unsigned w) {
        const int fd = open((tmp + "/e" + std::to_string(w)).c_str(), O_CREAT | O_APPEND | O_WRONLY, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        signal(SIGPROF, on_prof);
        std::ofstream f(tmp + "/w" + std::to_string(w), std::ios::app);
        std::vector<std::uint64_t> ev(p.subs.size(), 0), samples(p.subs.size(), 0);
        std::vector<std::map<std::string, std::uint64_t>> labels(p.subs.size());
        std::map<std::string, std::uint64_t> kn;
        auto flush = [&]() {
            for (std::size_t i = 0; i < p.subs.size(); ++i) {
                if (ev[i]) f << "E " << i << ' ' << ev[i] << '\n';
                ev[i] = 0;
                for (auto &l : labels[i]) f << "L " << i << ' ' << l.second << ' ' << l.first << '\n';
                labels[i].clear();
            }
            for (auto &k : kn) f << "K " << k.second << ' ' << k.first << '\n';
            kn.clear();
            f.flush();
        };
        double last = now();
        while (!sh->stop) {
            const std::uint64_t j = sh->next.fetch_add(1u);
            if (j >= slots.size()) break;
            if (now() > end) {
                break;
            }
            const std::size_t s = slots[j].sub;
            const std::uint64_t k = slots[j].idx;
            owner[j] = incarnation;
            sh->w[w].sub = static_cast<std::int64_t>(s);
            sh->w[w].idx = static_cast<std::int64_t>(k);
            arm(p.case_cpu_s);
            Gen g(case_seed(s, k));
            Outcome o = run_here(p.subs[s], g);
            arm(0.);
            sh->w[w].sub = -1;
            ++ev[s];
            for (auto &l : o.labels) ++labels[s][l];
            if (o.nontrivial) {
                std::uint64_t h = mix(s);
                for (auto x : o.record) h = mix(h ^ x);
                f << "N " << s << ' ' << h << '\n';
                if (samples[s] < 1u && !o.notes.empty()) {
                    ++samples[s];
                    std::string n = o.notes.substr(0, 600);
                    for (auto &ch : n) {
                        if (ch == '\n' || ch == '\r') ch = ' ';
                    }
                    f << "S " << s << ' ' << k << ' ' << n << '\n';
                }
            }
            if (o.status) {
                const std::string full = p.subs[s].name + "/" + o.key;
                if (is_known(full)) {
                    ++kn[full];
                } else {
                    f << "F " << s << ' ' << k << '\n';
                    flush();
                    sh->stop = 1;
                    break;
                }
            }
            if (now() - last > 1.) {
                flush();
                last = now();
            }
        }
        flush();
        f.close();
        _exit(0);
    };

    std::vector<std::pair<std::size_t, std::uint64_t>> failed; // (sub, case)
    std::map<std::string, std::uint64_t> known_crash;
    std::fflush(nullptr);
    std::map<pid_t, unsigned> pids;
    auto spawn = [&](unsigned w) {
        sh->w[w].sub = -1;
        ++incarnation;
        const pid_t q = fork();
        if (q == 0) {
            worker(w);
        }
        pids[q] = w;
    };
    for (unsigned w = 0; w < nw; ++w) spawn(w);
    std::uint64_t crashes = 0;
    const double hard = end + 60. + 2. * p.case_cpu_s;
    while (!pids.empty()) {
        int st = 0;
        const pid_t q = waitpid(-1, &st, WNOHANG);
        if (q <= 0) {
            if (now() > hard) {
                // a worker blocked without using CPU time
                for (auto &x : pids) {
                    const auto s = sh->w[x.second].sub.load(), k = sh->w[x.second].idx.load();
                    kill(x.first, SIGKILL);
                    waitpid(x.first, &st, 0);
                    if (s >= 0) failed.emplace_back(static_cast<std::size_t>(s), static_cast<std::uint64_t>(k));
                }
                pids.clear();
                break;
            }
            usleep(2000);
            continue;
        }
        if (!pids.count(q)) continue;
        const unsigned w = pids[q];
        pids.erase(q);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            const auto s = sh->w[w].sub.load(), k = sh->w[w].idx.load();
            if (s >= 0) {
                const bool hang = WIFEXITED(st) && WEXITSTATUS(st) == 97;
                const std::string full = p.subs[static_cast<std::size_t>(s)].name + (hang ? "/hang" : "/crash");
                ++crashes;
                if (is_known(full)) {
                    ++known_crash[full];
                    if (crashes < 500u) spawn(w);
                } else {
                    failed.emplace_back(static_cast<std::size_t>(s), static_cast<std::uint64_t>(k));
                    sh->stop = 1;
                }
            } else if (crashes++ < 20u) {
                spawn(w);
            }
        }
    }

    // ---- collect
    std::vector<std::uint64_t> ev(p.subs.size(), 0);
    std::vector<std::set<std::uint64_t>> distinct(p.subs.size());
    std::vector<std::map<std::string, std::uint64_t>> labels(p.subs.size());
    std::vector<std::pair<std::uint64_t, std::string>> samp(p.subs.size(), {~std::uint64_t(0), ""});
    std::map<std::string, std::uint64_t> kn = known_crash;
    for (unsigned w = 0; w < nw; ++w) {
        std::ifstream f(tmp + "/w" + std::to_string(w));
        std::string l;
        while (std::getline(f, l)) {
            std::istringstream ss(l);
            char t;
            ss >> t;
            std::size_t s;
            std::uint64_t k;
            if (t == 'E' && (ss >> s >> k)) {
                ev[s] += k;
            } else if (t == 'N' && (ss >> s >> k)) {
                distinct[s].insert(k);
            } else if (t == 'L' && (ss >> s >> k)) {
                std::string x;
                std::getline(ss, x);
                labels[s][x.substr(1)] += k;
            } else if (t == 'S' && (ss >> s >> k)) {
                std::string x;
                std::getline(ss, x);
                if (k < samp[s].first) samp[s] = {k, x.substr(1)};
            } else if (t == 'K' && (ss >> k)) {
                std::string x;
                ss >> x;
                kn[x] += k;
            } else if (t == 'F' && (ss >> s >> k)) {
                failed.emplace_back(s, k);
            }
        }
    }
    // ---- shrink, confirm, report
    int violations = 0;
    std::vector<std::string> unconfirmed;
    std::set<std::string> reported;
    std::sort(failed.begin(), failed.end());
    const double confirm_end = now() + 360.;
    for (const auto &fc : failed) {
        const Sub &s = p.subs[fc.first];
        if (reported.size() >= 3u || now() > confirm_end) break;
        const double cpu = p.case_cpu_s;
        Outcome o = run_forked(s, nullptr, case_seed(fc.first, fc.second), cpu, tmp);
        unsigned rounds = 1;
        while (!o.status && rounds < (s.racy ? 40u : 10u)) {
            o = run_forked(s, nullptr, case_seed(fc.first, fc.second), cpu, tmp);
            ++rounds;
        }
        Prelude before;
        if (!o.status && !s.racy) {
            // Not on its own: with the cases its process had run before?
            std::size_t at = slots.size();
            for (std::size_t j = 0; j < slots.size(); ++j) {
                if (slots[j].sub == fc.first && slots[j].idx == fc.second) at = j;
            }
            Prelude all;
            for (std::size_t j = 0; j < at && at < slots.size(); ++j) {
                if (owner[j] == owner[at]) all.emplace_back(&p.subs[slots[j].sub], case_seed(slots[j].sub, slots[j].idx));
            }
            const std::uint64_t cs = case_seed(fc.first, fc.second);
            const double give_up = now() + 150.;
            auto fails = [&](const Prelude &b) {
                Outcome x = run_forked(s, nullptr, cs, cpu, tmp, b);
                if (!x.status) return false;
                o = x;
                return true;
            };
            bool found = false;
            for (std::size_t n = 1; !found && n < 2u * all.size() && now() < give_up; n *= 2u) {
                before.assign(all.end() - static_cast<std::ptrdiff_t>(std::min(n, all.size())), all.end());
                found = fails(before);
            }
            if (!found) before.clear();
            for (std::size_t n = before.size() / 2u; found && n > 0u && now() < give_up; n /= 2u) {
                for (std::size_t i = 0; i + n <= before.size() && before.size() > 1u && now() < give_up;) {
                    Prelude b = before;
                    b.erase(b.begin() + static_cast<std::ptrdiff_t>(i), b.begin() + static_cast<std::ptrdiff_t>(i + n));
                    if (fails(b)) {
                        before = b;
                    } else {
                        i += n;
                    }
                }
            }
            if (found) {
                for (int r = 0; r < 3; ++r) found = found && fails(before);
            }
            if (!found) o.status = 0;
        }
        if (!o.status) {
            unconfirmed.push_back(s.name + "#" + std::to_string(fc.second));
            continue;
        }
        const std::string full = s.name + "/" + o.key;
        if (reported.count(full) || is_known(full)) continue;
        Outcome best = o;
        std::string how;
        if (!before.empty()) {
            how = "(after " + std::to_string(before.size()) + " other case(s) in the same process) ";
        } else if (!s.racy && o.key != "hang") {
            best = shrink(s, o, cpu, tmp, 90.);
            auto confirmed = [&](const Outcome &c) {
                unsigned ok = 0;
                for (int r = 0; r < 3; ++r) ok += run_forked(s, &c.record, 0, cpu, tmp).status ? 1u : 0u;
                return ok == 3u;
            };
            if (!confirmed(best)) {
                best = o;
                if (!confirmed(best)) how = "(not on every replay) ";
            }
        }
        reported.insert(full);
        ++violations;
        mkdir((base + "/replays").c_str(), 0755);
        const std::string path = base + "/replays/" + p.id + "-" + s.name + "-" + std::to_string(violations) + ".txt";
        std::ofstream rf(path);
        rf << "property " << p.id << "\nsub " << s.name << "\n";
        rf << "choices " << best.record.size();
        for (auto x : best.record) rf << ' ' << x;
        rf << "\n";
        if (!before.empty()) {
            rf << "prelude " << before.size();
            for (auto &b : before) rf << ' ' << b.first->name << ' ' << b.second;
            rf << "\n";
        }
        rf << "seed " << seed << " case " << fc.second << "\nkey " << best.key << "\n";
        std::string m = best.msg, n = best.notes;
        rf << "message " << m << "\ncase-text " << n << "\n";
        rf.close();
        std::cout << "FAILED " << s.name << ": " << how << best.key << ": " << best.msg << "\n  case: " << best.notes << "\n";
        std::cout << "VIOLATION property=" << p.id << " replay=" << path << "\n";
    }
    for (const auto &k : known) {
        std::cout << "KNOWN-FINDING: property=" << p.id << " " << k.key << ": " << k.text << " (hit " << kn[k.key] << " times)\n";
    }

    // ---- evidence
    std::uint64_t evs = 0, dn = 0;
    std::ostringstream js, lj, sj, subj;
    for (std::size_t i = 0; i < p.subs.size(); ++i) {
        evs += ev[i];
        dn += distinct[i].size();
        subj << (i ? ", " : "") << json_str(p.subs[i].name) << ": {\"planned\": " << count[i] << ", \"evaluations\": " << ev[i]
             << ", \"distinct_nontrivial\": " << distinct[i].size() << ", \"classes\": {";
        bool f = true;
        for (auto &l : labels[i]) {
            subj << (f ? "" : ", ") << json_str(l.first) << ": " << l.second;
            f = false;
        }
        subj << "}}";
        if (!samp[i].second.empty()) {
            sj << (sj.tellp() > 0 ? ", " : "") << json_str(p.subs[i].name + ": " + samp[i].second);
        }
    }
    if (sj.tellp() <= 0) sj << "\"(no non-trivial case was reached)\"";
    js << "{\n \"property\": " << json_str(p.id) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
       << ",\n \"level\": \"" << p.level << "\",\n \"coverage\": {\n  \"evaluations\": " << evs << ",\n  \"distinct_nontrivial\": " << dn
       << ",\n  \"rule\": " << json_str(p.rule) << ",\n  \"samples\": [" << sj.str() << "],\n  \"sub_checks\": {" << subj.str()
       << "},\n  \"known_findings_hit\": {";
    {
        bool f = true;
        for (auto &k : kn) {
            js << (f ? "" : ", ") << json_str(k.first) << ": " << k.second;
            f = false;
        }
    }
    js << "},\n  \"unconfirmed\": " << unconfirmed.size() << "\n },\n \"assumptions\": [";
    for (std::size_t i = 0; i < p.assumptions.size(); ++i) js << (i ? ", " : "") << json_str(p.assumptions[i]);
    js << "],\n \"wall_s\": " << (now() - t0) << ",\n \"violations\": " << violations << "\n}\n";
    mkdir((base + "/evidence").c_str(), 0755);
    std::ofstream(base + "/evidence/" + p.id + ".json") << js.str();
    std::cout << p.id << ": " << evs << "/" << total << " cases, " << dn << " distinct non-trivial, " << violations
              << " violation(s), " << (now() - t0) << " s\n";
    if (std::getenv("VERIF_VERBOSE")) std::cout << js.str();
    cleanup();
    if (violations) return 1;
    // Work left undone because of the time budget is inconclusive, never a violation; nothing run at all is an error.
    return evs == 0u ? 2 : 0;
}
} // namespace pbt
#endif
