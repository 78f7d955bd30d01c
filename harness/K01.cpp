// K01: a kernel evaluates, prints and names exactly what it was built from.
#include <cassert>
#include <cmath>
#include <complex>
#include <memory>
#include <sstream>
#include <dcgp/kernel.hpp>
#include <pbt.hpp>

using TS = pagmo::thread_safety;
using pbt::Case;
using pbt::Gen;
using Svec = std::vector<std::string>;

static const std::string ALPHA = "abxyz019_+-*/()^ .,$%{}\n\t\"\\";

// What the numeric callable was given, and what it answers.
template <typename T>
struct Call {
    long id;
    TS ts;
    T coef;
    T operator()(const std::vector<T> &v) const
    {
        T r = coef;
        for (std::size_t i = 0; i < v.size(); ++i) r += v[i] * T(static_cast<double>(i + 1));
        if (v.size() == 7) throw std::out_of_range("seven");
        return r;
    }
    TS get_thread_safety() const
    {
        return ts;
    }
};
template <typename T>
struct CallPlain {
    T coef;
    T operator()(const std::vector<T> &v) const
    {
        return v.empty() ? coef : coef * v.front() - v.back();
    }
};
struct Print {
    std::string p;
    TS ts;
    std::string operator()(const Svec &v) const
    {
        std::string r = p;
        for (auto &s : v) r += "(" + s + ")";
        return r;
    }
    TS get_thread_safety() const
    {
        return ts;
    }
};
static std::string print_free(const Svec &v)
{
    std::string r;
    for (auto it = v.rbegin(); it != v.rend(); ++it) r += *it + ";";
    return r;
}
template <typename T>
static T num_free(const std::vector<T> &v)
{
    T r(0.5);
    for (auto &x : v) r = r * T(2.) + x;
    return r;
}
template <typename T>
struct Model {
    int fk = 0, pk = 0;
    Call<T> f;
    Print p;
    std::string name;
    T call(const std::vector<T> &v) const
    {
        if (fk == 0) return f(v);
        if (fk == 1) return CallPlain<T>{f.coef}(v);
        return num_free<T>(v);
    }
    std::string print(const Svec &v) const
    {
        return pk == 0 ? p(v) : print_free(v);
    }
    TS ts() const
    {
        const TS a = fk == 0 ? f.ts : TS::basic, b = pk == 0 ? p.ts : TS::basic;
        // none is weaker than basic, basic is weaker than constant
        return a == TS::none || b == TS::none ? TS::none : a == TS::basic || b == TS::basic ? TS::basic : TS::constant;
    }
};
template <typename T>
struct Val;
template <>
struct Val<double> {
    static double get(Gen &g)
    {
        return g.any_double();
    }
};
template <>
struct Val<std::complex<double>> {
    static std::complex<double> get(Gen &g)
    {
        const double a = g.real(-9, 9), b = g.real(-9, 9);
        return {a, b};
    }
};
template <>
struct Val<float> {
    static float get(Gen &g)
    {
        return static_cast<float>(g.real(-90, 90));
    }
};
static bool same(double a, double b)
{
    return a == b || (std::isnan(a) && std::isnan(b));
}
static bool same(float a, float b)
{
    return a == b || (std::isnan(a) && std::isnan(b));
}
static bool same(std::complex<double> a, std::complex<double> b)
{
    return same(a.real(), b.real()) && same(a.imag(), b.imag());
}
static TS gen_ts(Gen &g)
{
    return std::vector<TS>{TS::basic, TS::none, TS::constant}[g.u(0, 2)];
}
template <typename T>
static dcgp::kernel<T> make(Gen &g, Model<T> &m)
{
    m.fk = g.in(0, 2);
    m.pk = g.in(0, 1);
    m.f = Call<T>{g.in(0, 99), gen_ts(g), T(g.in(-5, 5))};
    m.p = Print{g.text(ALPHA, 6), gen_ts(g)};
    m.name = g.text(ALPHA, 20);
    using K = dcgp::kernel<T>;
    const auto &cp = m.p;
    if (m.fk == 0) return m.pk == 0 ? K(m.f, cp, m.name) : K(m.f, print_free, m.name);
    if (m.fk == 1) return m.pk == 0 ? K(CallPlain<T>{m.f.coef}, Print(m.p), m.name) : K(CallPlain<T>{m.f.coef}, &print_free, m.name);
    return m.pk == 0 ? K(num_free<T>, cp, m.name.c_str()) : K(&num_free<T>, print_free, m.name);
}
template <typename T>
static void check(Gen &g, Case &c, const dcgp::kernel<T> &k, const Model<T> &m, const char *where)
{
    std::vector<T> v;
    const unsigned n = g.small(0, 8);
    for (unsigned i = 0; i < n; ++i) v.push_back(Val<T>::get(g));
    const auto v0 = v;
    if (m.fk == 0 && n == 7) {
        bool thrown = false;
        try {
            (void)k(v);
        } catch (const std::out_of_range &) {
            thrown = true;
        }
        c.require(thrown, "exception-through", where, ": the exception of the function was lost");
    } else {
        const T r = k(v);
        c.require(same(r, m.call(v)), "value", where, ": kernel on ", n, " inputs gives ", r, ", its function ", m.call(v));
    }
    for (std::size_t i = 0; i < v.size(); ++i) c.require(same(v[i], v0[i]), "value", where, ": inputs changed");
    // lists
    const T a = Val<T>::get(g), b = Val<T>::get(g), d = Val<T>::get(g);
    c.require(same(k({a}), m.call({a})), "list", where, ": kernel({a}) differs from its function");
    c.require(same(k({a, b}), m.call({a, b})), "list", where, ": kernel({a,b}) differs from its function");
    c.require(same(k({a, b, d}), m.call({a, b, d})), "list", where, ": kernel({a,b,c}) differs from its function");
    const std::initializer_list<T> il = {a, b, d, a, b};
    c.require(same(k(il), m.call(std::vector<T>(il))), "list", where, ": kernel(list) differs from its function");
    // names
    Svec s;
    const unsigned q = g.small(0, 5);
    for (unsigned i = 0; i < q; ++i) s.push_back(g.text(ALPHA, 6));
    c.require(k(s) == m.print(s), "print", where, ": kernel prints ", k(s), ", its printing function ", m.print(s));
    c.require(k.get_name() == m.name, "name", where, ": name ", k.get_name(), ", given ", m.name);
    std::ostringstream ss, plain;
    const int w = g.in(0, 12);
    ss << "[" << k << "]";
    c.require(ss.str() == "[" + m.name + "]", "stream", where, ": streams as ", ss.str());
    std::ostringstream *back = dynamic_cast<std::ostringstream *>(&(plain << k));
    c.require(back == &plain, "stream", where, ": streaming does not return the stream");
    (void)w;
    c.require(k.get_thread_safety() == m.ts(), "thread-safety", where, ": thread safety ", static_cast<int>(k.get_thread_safety()), ", expected ",
              static_cast<int>(m.ts()));
}
template <typename T>
static void history(Gen &g, Case &c)
{
    const unsigned n = 3;
    std::vector<dcgp::kernel<T>> k;
    std::vector<Model<T>> m(n);
    for (unsigned i = 0; i < n; ++i) k.push_back(make(g, m[i]));
    std::vector<bool> alive(n, true);
    const unsigned len = g.small(1, 12);
    c.note(len, " operations on kernels named: ");
    for (unsigned i = 0; i < n; ++i) c.trace('\'', m[i].name, "' ");
    c.nontrivial(len > 2);
    for (unsigned q = 0; q < len; ++q) {
        const unsigned i = g.u(0, n - 1), j = g.u(0, n - 1), op = g.u(0, 5);
        c.trace(op, ':', i, ',', j, ' ');
        switch (op) {
            case 0:
                k[i] = make(g, m[i]);
                alive[i] = true;
                break;
            case 1:
                if (alive[j]) {
                    auto *src = &k[j];
                    k[i] = *src;
                    m[i] = m[j];
                    alive[i] = true;
                }
                break;
            case 2:
                if (i != j && alive[j]) {
                    k[i] = std::move(k[j]);
                    m[i] = m[j];
                    alive[i] = true;
                    alive[j] = false;
                }
                break;
            case 3:
                if (alive[j]) {
                    dcgp::kernel<T> x(k[j]);
                    check(g, c, x, m[j], "copy");
                    dcgp::kernel<T> y(std::move(x));
                    check(g, c, y, m[j], "moved copy");
                }
                break;
            case 4:
                std::swap(k[i], k[j]);
                std::swap(m[i], m[j]);
                {
                    const bool t = alive[i];
                    alive[i] = alive[j];
                    alive[j] = t;
                }
                break;
            default: {
                auto all = k.size() ? std::vector<dcgp::kernel<T>>() : std::vector<dcgp::kernel<T>>();
                for (unsigned z = 0; z < n; ++z) all.push_back(std::move(k[z]));
                k = std::move(all);
            }
        }
        for (unsigned z = 0; z < n; ++z) {
            if (alive[z]) check(g, c, k[z], m[z], "after operation");
        }
    }
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "K01";
    p.rule = "random pairs of callables (functors with and without a thread safety, function pointers), names with any characters, inputs of any number and "
             "value (special values too), on kernels over double, float and complex, through histories of copies, moves, swaps; non-trivial: more than two "
             "operations; counted distinct by choice sequence";
    p.subs = {{"double", 40000, 800000, history<double>}, {"complex", 25000, 400000, history<std::complex<double>>}, {"float", 25000, 400000, history<float>}};
    p.case_cpu_s = 20;
    return pbt::run(argc, argv, p);
}
