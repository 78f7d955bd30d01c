// F01: dcgp::function is a value holding any callable: it calls what it holds, copies are independent, moves leave
// an invalid object which can be reassigned, the empty function throws, and thread safety follows the value.
#include <cassert>
#include <dcgp/function.hpp>
#include <pbt.hpp>

using dcgp::function;
using TS = pagmo::thread_safety;
using pbt::Case;
using pbt::Gen;

static long g_live = 0;      // instances of Tracked alive
static long g_throw_copy = -1; // the n-th copy from now throws

struct Boom {
};

template <int Tag>
struct Tracked {
    long value;
    TS ts;
    Tracked *self; // detects bitwise copies and use of dead objects
    Tracked(long v, TS t) : value(v), ts(t), self(this)
    {
        ++g_live;
    }
    Tracked(const Tracked &o) : value(o.value), ts(o.ts), self(this)
    {
        if (o.self != &o) std::abort();
        if (g_throw_copy >= 0 && g_throw_copy-- == 0) throw Boom{};
        ++g_live;
    }
    Tracked(Tracked &&o) : value(o.value), ts(o.ts), self(this)
    {
        if (o.self != &o) std::abort();
        o.value = -777;
        ++g_live;
    }
    Tracked &operator=(const Tracked &) = delete;
    ~Tracked()
    {
        if (self != this) std::abort();
        self = nullptr;
        --g_live;
    }
    long operator()(long a, const long &b) const
    {
        if (self != this) std::abort();
        if (a == 13) throw std::domain_error("thirteen " + std::to_string(value));
        return value * 1000003 + a * 31 + b * 7 + Tag;
    }
    TS get_thread_safety() const
    {
        return ts;
    }
};
// No thread safety of its own.
struct Plain {
    long value;
    long operator()(long a, long b) const
    {
        return value - a + 2 * b;
    }
};
struct Big {
    long pad[40];
    std::string s;
    long operator()(long a, long b) const
    {
        return pad[0] + pad[39] + static_cast<long>(s.size()) + a * b;
    }
};
static long fp0(long a, const long &b)
{
    return a * 3 - b;
}
static long fp1(long a, const long &b)
{
    return a ^ (b * 4);
}

using F = function<long(long, const long &)>;
using fptr = long (*)(long, const long &);

struct Model {
    // 0 moved-from, 1 null pointer, 2/3 function pointers, 4/5 Tracked<0/1>, 6 Plain, 7 Big, 8 lambda
    int kind = 1;
    long value = 0;
    TS ts = TS::basic;
    long call(long a, long b) const
    {
        switch (kind) {
            case 2:
                return fp0(a, b);
            case 3:
                return fp1(a, b);
            case 4:
            case 5:
                return value * 1000003 + a * 31 + b * 7 + (kind - 4);
            case 6:
                return value - a + 2 * b;
            case 7:
                return 2 * value + value % 50 + a * b;
            default:
                return value + a + b;
        }
    }
    bool tracked() const
    {
        return kind == 4 || kind == 5;
    }
};
static F make_lambda(long v)
{
    return F([v](long a, const long &b) { return v + a + b; });
}
static F make(const Model &m)
{
    switch (m.kind) {
        case 1:
            return F();
        case 2:
            return m.value % 2 ? F(fp0) : F(&fp0);
        case 3: {
            fptr p = &fp1;
            return m.value % 2 ? F(p) : F(static_cast<const fptr &>(p));
        }
        case 4:
            return F(Tracked<0>(m.value, m.ts));
        case 5: {
            const Tracked<1> t(m.value, m.ts);
            return F(t);
        }
        case 6:
            return F(Plain{m.value});
        case 7: {
            Big b;
            for (auto &x : b.pad) x = m.value;
            b.s = std::string(static_cast<std::size_t>(m.value % 50), 'x');
            return F(b);
        }
        default:
            return make_lambda(m.value);
    }
}
static Model gen_model(Gen &g)
{
    Model m;
    m.kind = g.in(1, 8);
    m.value = m.kind == 1 ? 0 : g.in(0, 200);
    m.ts = TS::basic;
    if (m.tracked()) m.ts = std::vector<TS>{TS::basic, TS::none, TS::constant}[g.u(0, 2)];
    return m;
}

static void check(Case &c, const F &f, const Model &m, long a, long b, const char *where)
{
    c.require(f.is_valid() == (m.kind != 0), "validity", where, ": is_valid() is ", f.is_valid(), ", kind held ", m.kind);
    if (m.kind == 0) return;
    c.require(f.get_thread_safety() == m.ts, "thread-safety", where, ": reports ", static_cast<int>(f.get_thread_safety()), ", callable has ",
              static_cast<int>(m.ts), " kind ", m.kind);
    c.require(f.is<fptr>() == (m.kind >= 1 && m.kind <= 3), "is", where, ": is<pointer> wrong for kind ", m.kind);
    c.require(f.is<Tracked<0>>() == (m.kind == 4), "is", where, ": is<Tracked0> wrong for kind ", m.kind);
    c.require(f.is<Tracked<1>>() == (m.kind == 5), "is", where, ": is<Tracked1> wrong for kind ", m.kind);
    c.require(f.is<Plain>() == (m.kind == 6), "is", where, ": is<Plain> wrong for kind ", m.kind);
    c.require(f.is<Big>() == (m.kind == 7), "is", where, ": is<Big> wrong for kind ", m.kind);
    c.require(!f.is<int>() && f.extract<double>() == nullptr, "is", where, ": extracts a type never stored");
    if (m.kind == 4) {
        auto *p = f.extract<Tracked<0>>();
        c.require(p && p->value == m.value && p->self == p, "extract", where, ": wrong object extracted");
    }
    if (m.kind == 5) {
        auto *p = f.extract<Tracked<1>>();
        c.require(p && p->value == m.value && p->self == p, "extract", where, ": wrong object extracted");
    }
    if (m.kind == 6) c.require(f.extract<Plain>()->value == m.value, "extract", where, ": wrong value extracted");
    if (m.kind == 1) {
        bool thrown = false;
        try {
            (void)f(a, b);
        } catch (const std::runtime_error &) {
            thrown = true;
        }
        c.require(thrown, "null-call", where, ": calling an empty function did not throw std::runtime_error");
    } else if (m.tracked() && a == 13) {
        bool thrown = false;
        try {
            (void)f(a, b);
        } catch (const std::domain_error &e) {
            thrown = std::string(e.what()) == "thirteen " + std::to_string(m.value);
        }
        c.require(thrown, "exception-through", where, ": the exception of the callable did not come through");
    } else {
        const long r = f(a, b);
        c.require(r == m.call(a, b), "call", where, ": f(", a, ",", b, ") = ", r, ", expected ", m.call(a, b), " kind ", m.kind);
    }
}

static void history(Gen &g, Case &c)
{
    g_live = 0;
    g_throw_copy = -1;
    unsigned ops = 0, copies = 0, moves = 0;
    {
        const unsigned n = 4;
        std::vector<F> f;
        std::vector<Model> m(n);
        for (unsigned i = 0; i < n; ++i) {
            m[i] = gen_model(g);
            f.push_back(make(m[i]));
        }
        const unsigned len = g.small(1, 40);
        c.note("history of ", len, " operations: ");
        for (unsigned k = 0; k < len; ++k) {
            const unsigned op = g.u(0, 13), i = g.u(0, n - 1), j = g.u(0, n - 1);
            c.trace(op, ':', i, ',', j, ' ');
            ++ops;
            const bool jv = m[j].kind != 0;
            switch (op) {
                case 0: { // a new value
                    m[i] = gen_model(g);
                    f[i] = make(m[i]);
                    break;
                }
                case 1: // copy assignment, from itself too
                    if (jv) {
                        F *src = &f[j];
                        f[i] = *src;
                        m[i] = m[j];
                        ++copies;
                    }
                    break;
                case 2: { // move assignment, to itself too (no effect)
                    F *src = &f[j];
                    f[i] = std::move(*src);
                    if (i != j) {
                        m[i] = m[j];
                        m[j].kind = 0;
                        ++moves;
                    }
                    break;
                }
                case 3: // copy construction
                    if (jv) {
                        F x(f[j]);
                        check(c, x, m[j], 5, 9, "copy");
                        F y(static_cast<const F &>(x));
                        if (m[j].kind == 6) { // a change of one copy
                            y.extract<Plain>()->value += 5;
                            Model my = m[j];
                            my.value += 5;
                            check(c, y, my, 1, 2, "changed copy");
                        }
                        check(c, x, m[j], 1, 2, "copied from");
                        check(c, f[j], m[j], 1, 2, "copied from");
                        ++copies;
                    }
                    break;
                case 4: { // move construction
                    F x(std::move(f[j]));
                    check(c, x, m[j], 5, 9, "moved to");
                    Model gone;
                    gone.kind = 0;
                    check(c, f[j], gone, 0, 0, "moved from");
                    f[j] = std::move(x);
                    ++moves;
                    break;
                }
                case 5: // change the callable in place
                    if (m[i].kind == 6) f[i].extract<Plain>()->value = m[i].value = g.in(0, 99);
                    if (m[i].kind == 4) f[i].extract<Tracked<0>>()->value = m[i].value = g.in(0, 99);
                    if (m[i].kind == 5) f[i].extract<Tracked<1>>()->value = m[i].value = g.in(0, 99);
                    break;
                case 6:
                    std::swap(f[i], f[j]);
                    std::swap(m[i], m[j]);
                    break;
                case 7: { // reallocation and shifts within a vector
                    std::vector<F> t;
                    for (auto &x : f) t.push_back(std::move(x));
                    t.insert(t.begin(), F(Plain{3}));
                    t.erase(t.begin());
                    f = std::move(t);
                    ++moves;
                    break;
                }
                case 8: // a copy that throws half way leaves the target as it was
                    if (jv && m[j].tracked()) {
                        g_throw_copy = 0;
                        bool thrown = false;
                        try {
                            f[i] = f[j];
                        } catch (const Boom &) {
                            thrown = true;
                        }
                        g_throw_copy = -1;
                        c.label("throwing copy");
                        c.require(thrown, "throwing-copy", "the exception of the copy of the callable was lost");
                    }
                    break;
                case 9: // converting assignment
                    f[i] = Plain{static_cast<long>(k)};
                    m[i] = Model();
                    m[i].kind = 6;
                    m[i].value = static_cast<long>(k);
                    break;
                case 10: // converting assignment of plain functions
                    f[i] = fp1;
                    m[i] = Model();
                    m[i].kind = 3;
                    break;
                case 11: { // through a pass by value and a return by value
                    if (jv) {
                        auto id = [](F x) { return x; };
                        f[i] = id(f[j]);
                        m[i] = m[j];
                        ++copies;
                    }
                    break;
                }
                case 12: // a function held by a function of another signature
                    if (jv && m[j].kind != 1) {
                        function<long(long, long)> outer(f[j]);
                        c.require(outer.is<F>(), "is", "nested function not found");
                        c.require(outer.get_thread_safety() == m[j].ts, "thread-safety", "nested: thread safety lost");
                        const long r = outer(4, 6);
                        c.require(r == m[j].call(4, 6), "call", "nested call gives ", r);
                    }
                    break;
                default: // calls do not change anything
                    for (unsigned q = 0; q < 3; ++q) check(c, f[i], m[i], g.in(-20, 20), g.in(-20, 20), "call");
            }
            long live = 0;
            for (unsigned q = 0; q < n; ++q) {
                check(c, f[q], m[q], g.in(-20, 20), g.in(-20, 20), ("op " + std::to_string(op) + ", slot " + std::to_string(q)).c_str());
                live += m[q].tracked();
            }
            c.require(g_live == live, "lifetime", g_live, " callables alive, ", live, " held, after op ", op);
        }
    }
    c.require(g_live == 0, "lifetime", g_live, " callables alive at the end");
    c.nontrivial(ops >= 4 && copies >= 1 && moves >= 1);
}

// Arguments and results go through unchanged, whatever their category.
struct Obj {
    std::vector<int> v;
    int copies = 0;
    Obj(std::vector<int> x) : v(std::move(x)) {}
    Obj(const Obj &o) : v(o.v), copies(o.copies + 1) {}
    Obj(Obj &&o) noexcept : v(std::move(o.v)), copies(o.copies) {}
};
static void forwarding(Gen &g, Case &c)
{
    std::vector<int> v;
    const unsigned n = g.small(0, 12);
    for (unsigned i = 0; i < n; ++i) v.push_back(g.in(-50, 50));
    const int k = g.in(-9, 9);
    c.note("vector ", v, " int ", k);
    c.nontrivial(n > 1);
    const Obj *seen = nullptr;
    // const reference: the very object
    function<int(const Obj &)> f1([&](const Obj &o) {
        seen = &o;
        return static_cast<int>(o.v.size());
    });
    Obj o(v);
    c.require(f1(o) == static_cast<int>(n) && seen == &o, "forward", "a const reference does not reach the callable as the same object");
    // lvalue reference: changes are seen
    function<void(Obj &, int)> f2([&](Obj &x, int a) {
        seen = &x;
        x.v.push_back(a);
    });
    f2(o, k);
    auto v2 = v;
    v2.push_back(k);
    c.require(o.v == v2 && seen == &o && o.copies == 0, "forward", "an lvalue reference does not reach the callable");
    // rvalue reference
    function<std::size_t(Obj &&)> f3([&](Obj &&x) {
        seen = &x;
        Obj y(std::move(x));
        return y.v.size() + 100u * static_cast<std::size_t>(y.copies);
    });
    c.require(f3(std::move(o)) == v2.size() && seen == &o && o.v.empty(), "forward", "an rvalue reference does not reach the callable");
    // by value, move only
    function<std::unique_ptr<Obj>(std::unique_ptr<Obj>, int, std::string)> f4([](std::unique_ptr<Obj> p, int a, std::string s) {
        p->v.push_back(a);
        p->v.push_back(static_cast<int>(s.size()));
        return p;
    });
    auto p = std::make_unique<Obj>(v);
    Obj *raw = p.get();
    const std::string s(static_cast<std::size_t>(n), 'q');
    p = f4(std::move(p), k, s);
    v2.push_back(static_cast<int>(n));
    c.require(p.get() == raw && p->v == v2 && p->copies == 0, "forward", "a move-only argument or result does not go through");
    // by value: the caller's object stays as it was
    function<int(Obj)> f5([](Obj x) {
        x.v.push_back(1);
        return static_cast<int>(x.v.size());
    });
    Obj z(v);
    c.require(f5(z) == static_cast<int>(n) + 1 && z.v == v, "forward", "an argument passed by value was changed or lost");
    // a reference as result
    function<int &(std::vector<int> &, std::size_t)> f6([](std::vector<int> &x, std::size_t i) -> int & { return x[i]; });
    if (n) {
        auto w = v;
        const auto i = static_cast<std::size_t>(g.u(0, n - 1));
        f6(w, i) = 4242;
        auto e = v;
        e[i] = 4242;
        c.require(w == e, "forward", "a reference result does not come back as a reference");
    }
    // order of the arguments, conversions
    function<std::string(int, const std::string &, double, char)> f7([](int a, const std::string &b, double d, char e) {
        return std::to_string(a) + "|" + b + "|" + std::to_string(d) + "|" + e;
    });
    c.require(f7(k, s, k * 0.5, 'z') == std::to_string(k) + "|" + s + "|" + std::to_string(k * 0.5) + "|z", "forward", "arguments arrive in another order or changed");
    // recursion and re-entrance
    function<long(long)> fact;
    fact = function<long(long)>([&fact](long x) { return x < 2 ? 1L : x * fact(x - 1); });
    long e = 1;
    const long top = static_cast<long>(g.u(0, 12));
    for (long i = 2; i <= top; ++i) e *= i;
    c.require(fact(top) == e, "reentrance", "recursive calls give a wrong value");
    // member state of the callable: const calls on a const function
    const function<int(int)> cf(std::function<int(int)>([k](int x) { return x + k; }));
    c.require(cf(n) == static_cast<int>(n) + k, "forward", "std::function as callable");
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "F01";
    p.rule = "random histories (construct, copy, move, swap, assign, change in place, throwing copy, nested, vector shifts, call) on four function "
             "objects holding eight kinds of callable, against a model of what each holds; non-trivial: at least four operations with one copy and one "
             "move, or a forwarded vector of at least two elements; counted distinct by choice sequence";
    p.subs = {{"history", 250000, 6000000, history}, {"forwarding", 60000, 1000000, forwarding}};
    p.case_cpu_s = 20;
    return pbt::run(argc, argv, p);
}
