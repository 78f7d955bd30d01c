// F02: functions and kernels survive a round trip through an archive.
#include <cassert>
#include <cstring>
#include <memory>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <dcgp/function.hpp>
#include <dcgp/kernel.hpp>
#include <pbt.hpp>

using TS = pagmo::thread_safety;
using pbt::Case;
using pbt::Gen;
using Vec = std::vector<double>;
using Svec = std::vector<std::string>;

template <int Tag>
struct Num {
    double a = 0;
    std::vector<int> w;
    TS ts = TS::basic;
    static inline long live = 0;
    Num()
    {
        ++live;
    }
    Num(const Num &o) : a(o.a), w(o.w), ts(o.ts)
    {
        ++live;
    }
    ~Num()
    {
        --live;
    }
    double operator()(const Vec &x) const
    {
        double r = a + Tag;
        for (std::size_t i = 0; i < x.size(); ++i) r += x[i] * (w.empty() ? 1 : w[i % w.size()]);
        return r;
    }
    TS get_thread_safety() const
    {
        return ts;
    }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &a &w &ts;
    }
};
struct NumPlain {
    double a = 0;
    double operator()(const Vec &x) const
    {
        return a * (x.empty() ? 1. : x.back());
    }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &a;
    }
};
template <int Tag>
struct Str {
    std::string p;
    TS ts = TS::basic;
    std::string operator()(const Svec &x) const
    {
        std::string r = p + std::to_string(Tag);
        for (auto &s : x) r += "<" + s + ">";
        return r;
    }
    TS get_thread_safety() const
    {
        return ts;
    }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &p &ts;
    }
};
DCGP_S11N_FUNCTION_EXPORT(f02_n0, Num<0>, double, const Vec &)
DCGP_S11N_FUNCTION_EXPORT(f02_n1, Num<1>, double, const Vec &)
DCGP_S11N_FUNCTION_EXPORT(f02_np, NumPlain, double, const Vec &)
DCGP_S11N_FUNCTION_EXPORT(f02_s0, Str<0>, std::string, const Svec &)
DCGP_S11N_FUNCTION_EXPORT(f02_s1, Str<1>, std::string, const Svec &)

using F = dcgp::function<double(const Vec &)>;
using S = dcgp::function<std::string(const Svec &)>;
using K = dcgp::kernel<double>;

static const std::string ALPHA = "ab01 _\n\"\\<>&+-*/()\t\x01\x7f\xc3\xa9";
static TS gen_ts(Gen &g)
{
    return std::vector<TS>{TS::basic, TS::none, TS::constant}[g.u(0, 2)];
}
static double gen_num(Gen &g)
{
    return g.chance(1, 3) ? g.in(-5, 5) : g.real(-1e3, 1e3) * (g.chance(1, 8) ? 1e-200 : 1.);
}
// What an object must behave like.
struct ModelF {
    int kind = 0;
    Num<0> n;
    TS ts = TS::basic;
    double call(const Vec &x) const
    {
        if (kind == 2) {
            NumPlain q;
            q.a = n.a;
            return q(x);
        }
        return n(x) + kind;
    }
};
struct ModelS {
    int kind = 0;
    std::string p;
    TS ts = TS::basic;
    std::string call(const Svec &x) const
    {
        if (kind == 0) return Str<0>{p, ts}(x);
        return Str<1>{p, ts}(x);
    }
};
static F gen_f(Gen &g, ModelF &m)
{
    m.kind = g.in(0, 2);
    m.n.a = std::floor(gen_num(g));
    m.n.w.clear();
    for (unsigned i = g.u(0, 3); i > 0; --i) m.n.w.push_back(g.in(-9, 9));
    m.n.ts = m.ts = gen_ts(g);
    if (m.kind == 0) return F(m.n);
    if (m.kind == 1) {
        Num<1> q;
        q.a = m.n.a;
        q.w = m.n.w;
        q.ts = m.ts;
        return F(q);
    }
    m.ts = TS::basic;
    NumPlain q;
    q.a = m.n.a;
    return F(q);
}
static S gen_s(Gen &g, ModelS &m)
{
    m.kind = g.in(0, 1);
    m.p = g.text(ALPHA, 8);
    m.ts = gen_ts(g);
    if (m.kind == 0) return S(Str<0>{m.p, m.ts});
    return S(Str<1>{m.p, m.ts});
}
static bool same(double a, double b)
{
    return a == b || std::abs(a - b) <= 1e-12 * (std::abs(a) + std::abs(b)) || (std::isnan(a) && std::isnan(b));
}
static Vec gen_x(Gen &g)
{
    Vec x;
    for (unsigned i = g.u(0, 4); i > 0; --i) x.push_back(g.in(-20, 20) * 0.25);
    return x;
}
static void check_f(Case &c, const F &f, const ModelF &m, const Vec &x, const std::string &where)
{
    c.require(f.is_valid(), "function", where, ": loaded function is not valid");
    c.require(same(f(x), m.call(x)), "function", where, ": loaded function gives ", f(x), " at ", x, ", saved one ", m.call(x));
    c.require(f.is<Num<0>>() == (m.kind == 0) && f.is<Num<1>>() == (m.kind == 1) && f.is<NumPlain>() == (m.kind == 2), "function", where,
              ": loaded function holds another type");
    if (m.kind == 0) c.require(f.extract<Num<0>>()->w == m.n.w && f.extract<Num<0>>()->ts == m.ts, "function", where, ": loaded state differs");
    c.require(f.get_thread_safety() == m.ts, "function-thread-safety", where, ": thread safety ", static_cast<int>(f.get_thread_safety()),
              " after loading, ", static_cast<int>(m.ts), " saved");
}
static void check_s(Case &c, const S &f, const ModelS &m, const std::string &where)
{
    const Svec x = {"x", "y+1"};
    c.require(f.is_valid() && f(x) == m.call(x), "function", where, ": loaded function prints differently");
    c.require(f.get_thread_safety() == m.ts, "function-thread-safety", where, ": thread safety ", static_cast<int>(f.get_thread_safety()),
              " after loading, ", static_cast<int>(m.ts), " saved");
}

template <typename OA, typename IA>
static void functions_in(Gen &g, Case &c)
{
    const unsigned n = g.small(1, 5);
    std::vector<F> f(n);
    std::vector<S> s(n);
    std::vector<ModelF> mf(n);
    std::vector<ModelS> ms(n);
    for (unsigned i = 0; i < n; ++i) {
        f[i] = gen_f(g, mf[i]);
        s[i] = gen_s(g, ms[i]);
        c.note("kind ", mf[i].kind, " a=", mf[i].n.a, " w=", mf[i].n.w, " ts ", static_cast<int>(mf[i].ts), " / print kind ", ms[i].kind, " ts ",
               static_cast<int>(ms[i].ts));
        // a detour through copies and moves before saving
        if (g.chance(1, 3)) {
            F t(f[i]);
            f[i] = std::move(t);
        }
    }
    const unsigned trips = g.u(1, 3);
    const Vec x = gen_x(g);
    c.nontrivial(n > 1 || trips > 1);
    for (unsigned t = 0; t < trips; ++t) {
        std::stringstream ss;
        const bool as_vector = g.flip();
        {
            OA oa(ss);
            if (as_vector) {
                const auto &cf = f;
                oa << cf;
                for (const auto &q : s) oa << q;
            } else {
                for (unsigned i = 0; i < n; ++i) {
                    const F &a = f[i];
                    const S &b = s[i];
                    oa << a << b;
                }
            }
        }
        for (unsigned i = 0; i < n; ++i) {
            check_f(c, f[i], mf[i], x, "saved object " + std::to_string(i));
            check_s(c, s[i], ms[i], "saved object " + std::to_string(i));
        }
        // targets with a past
        std::vector<F> f2(as_vector ? g.u(0, 6) : n);
        std::vector<S> s2(n);
        for (auto &q : f2) {
            ModelF o;
            const unsigned k = g.u(0, 2);
            if (k == 1) q = gen_f(g, o);
            if (k == 2) {
                F gone(std::move(q));
            }
        }
        for (auto &q : s2) {
            ModelS o;
            const unsigned k = g.u(0, 2);
            if (k == 1) q = gen_s(g, o);
            if (k == 2) {
                S gone(std::move(q));
            }
        }
        {
            IA ia(ss);
            if (as_vector) {
                ia >> f2;
                for (auto &q : s2) ia >> q;
            } else {
                for (unsigned i = 0; i < n; ++i) ia >> f2[i] >> s2[i];
            }
        }
        c.require(f2.size() == n, "function", "number of functions changed");
        for (unsigned i = 0; i < n; ++i) {
            check_f(c, f2[i], mf[i], x, "loaded object " + std::to_string(i));
            check_s(c, s2[i], ms[i], "loaded object " + std::to_string(i));
        }
        // what is loaded is independent of what was saved
        if (g.flip() && mf[0].kind == 0) {
            f2[0].template extract<Num<0>>()->a += 1.;
            check_f(c, f[0], mf[0], x, "saved object after a change of the loaded one");
            f2[0].template extract<Num<0>>()->a -= 1.;
        }
        f = std::move(f2);
        s = std::move(s2);
    }
}
static void functions(Gen &g, Case &c)
{
    Num<0>::live = Num<1>::live = 0;
    if (g.flip()) {
        functions_in<boost::archive::text_oarchive, boost::archive::text_iarchive>(g, c);
    } else {
        functions_in<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(g, c);
    }
    c.require(Num<0>::live == 0 && Num<1>::live == 0, "lifetime", Num<0>::live + Num<1>::live, " callables still alive after loading and destroying");
}

struct ModelK {
    ModelF f;
    ModelS s;
    std::string name;
    TS ts() const
    {
        return std::min(f.ts, s.ts);
    }
};
static K gen_k(Gen &g, ModelK &m)
{
    F f = gen_f(g, m.f);
    S s = gen_s(g, m.s);
    m.name = g.text(ALPHA, 10);
    // from functors, not functions: the same types as a user would hand in
    auto with_f = [&](auto &&ff) {
        if (m.s.kind == 0) return K(ff, Str<0>{m.s.p, m.s.ts}, m.name);
        return K(ff, Str<1>{m.s.p, m.s.ts}, m.name);
    };
    if (m.f.kind == 0) return with_f(m.f.n);
    if (m.f.kind == 1) return with_f(*f.extract<Num<1>>());
    return with_f(*f.extract<NumPlain>());
}
static void check_k(Case &c, const K &k, const ModelK &m, const Vec &x, const std::string &where)
{
    const Svec sx = {"p", "q"};
    c.require(same(k(x), m.f.call(x)), "kernel", where, ": value ", k(x), " at ", x, ", expected ", m.f.call(x));
    c.require(k(sx) == m.s.call(sx), "kernel", where, ": prints differently");
    c.require(k.get_name() == m.name, "kernel", where, ": name is '", k.get_name(), "', expected '", m.name, "'");
    std::ostringstream ss;
    ss << k;
    c.require(ss.str() == m.name, "kernel", where, ": streams differently");
    c.require(k.get_thread_safety() == m.ts(), "kernel-thread-safety", where, ": thread safety ", static_cast<int>(k.get_thread_safety()), ", expected ",
              static_cast<int>(m.ts()));
}
// A default constructed kernel in memory that held something else.
struct Dirty {
    alignas(K) unsigned char mem[sizeof(K)];
    K *k;
    explicit Dirty(int fill)
    {
        std::memset(mem, fill, sizeof mem);
        k = new (mem) K;
    }
    ~Dirty()
    {
        k->~K();
    }
};
template <typename OA, typename IA>
static void kernels_in(Gen &g, Case &c)
{
    const unsigned n = g.small(1, 4);
    std::vector<K> k;
    std::vector<ModelK> m(n);
    for (unsigned i = 0; i < n; ++i) {
        k.push_back(gen_k(g, m[i]));
        c.note("kernel ", m[i].f.kind, "/", m[i].s.kind, " ts ", static_cast<int>(m[i].f.ts), static_cast<int>(m[i].s.ts), " name ", m[i].name);
    }
    const Vec x = gen_x(g);
    const unsigned trips = g.u(1, 3);
    c.nontrivial(n > 1 || trips > 1);
    for (unsigned t = 0; t < trips; ++t) {
        std::stringstream ss;
        {
            OA oa(ss);
            for (unsigned i = 0; i < n; ++i) {
                const K &a = k[i];
                oa << a;
            }
        }
        std::vector<K> k2;
        {
            IA ia(ss);
            for (unsigned i = 0; i < n; ++i) {
                check_k(c, k[i], m[i], x, "saved");
                switch (g.u(0, 2)) {
                    case 0: {
                        Dirty d(g.in(0, 255));
                        ia >> *d.k;
                        k2.push_back(*d.k);
                        break;
                    }
                    case 1: {
                        ModelK o;
                        K q = gen_k(g, o);
                        ia >> q;
                        k2.push_back(std::move(q));
                        break;
                    }
                    default: {
                        ModelK o;
                        K q = gen_k(g, o);
                        K r(std::move(q));
                        ia >> q;
                        check_k(c, r, o, x, "moved to before the load");
                        k2.push_back(std::move(q));
                    }
                }
                check_k(c, k2.back(), m[i], x, "loaded");
            }
        }
        k = std::move(k2);
    }
}
static void kernels(Gen &g, Case &c)
{
    if (g.flip()) {
        kernels_in<boost::archive::text_oarchive, boost::archive::text_iarchive>(g, c);
    } else {
        kernels_in<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(g, c);
    }
}

// An archive cut short: a failed load leaves the function loaded into as it was.
template <typename OA, typename IA>
static void cut_in(Gen &g, Case &c)
{
    ModelF mf, of;
    ModelS ms, os;
    const F f = gen_f(g, mf);
    const S s = gen_s(g, ms);
    F f2 = gen_f(g, of);
    S s2 = gen_s(g, os);
    std::string all;
    {
        std::stringstream ss;
        {
            OA oa(ss);
            oa << f << s;
        }
        all = ss.str();
    }
    const std::size_t cut = static_cast<std::size_t>(g.raw(all.size()));
    c.note("archive of ", all.size(), " bytes cut at ", cut);
    std::stringstream ss(all.substr(0, cut));
    const Vec x = gen_x(g);
    unsigned stage = 0;
    try {
        IA ia(ss);
        ia >> f2;
        stage = 1;
        ia >> s2;
        stage = 2;
    } catch (const std::exception &) {
        c.label("load failed in part " + std::to_string(stage));
        c.nontrivial();
        if (stage == 0) check_f(c, f2, of, x, "target of a failed load");
        check_s(c, s2, os, "target of a failed load");
    }
    if (cut == all.size()) {
        c.require(stage == 2, "function", "a whole archive does not load");
        check_f(c, f2, mf, x, "loaded");
        check_s(c, s2, ms, "loaded");
    }
}
static void cut(Gen &g, Case &c)
{
    if (g.flip()) {
        cut_in<boost::archive::text_oarchive, boost::archive::text_iarchive>(g, c);
    } else {
        cut_in<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(g, c);
    }
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "F02";
    p.rule = "random functions and kernels (three numeric and two printing callable types, random state and thread safety) saved to text and binary archives "
             "in chains of up to three round trips, into targets with a random past, and archives cut at a random byte; non-trivial: more than one object or "
             "trip, or a load that failed; counted distinct by choice sequence";
    p.subs = {{"functions", 50000, 1000000, functions}, {"kernels", 50000, 1000000, kernels}, {"cut", 60000, 1500000, cut}};
    p.case_cpu_s = 20;
    return pbt::run(argc, argv, p);
}
