// S01: vectors stream element by element in order.
#include <iomanip>
#include <iostream>
#include <locale>
#include <sstream>
#include <string>
#include <vector>
#include <dcgp/std_overloads.hpp>
// after the header under test, so that nothing it needs comes from here
#include <pbt.hpp>

using pbt::Case;
using pbt::Gen;

// The reference printer.
template <typename T>
struct Ref {
    static void put(std::ostream &os, const T &x)
    {
        os << x;
    }
};
template <typename T>
struct Ref<std::vector<T>> {
    static void put(std::ostream &os, const std::vector<T> &v)
    {
        os << "[";
        for (std::size_t i = 0; i < v.size(); ++i) {
            os << " ";
            Ref<T>::put(os, v[i]);
        }
        os << " ]";
    }
};
template <>
struct Ref<std::vector<bool>> {
    static void put(std::ostream &os, const std::vector<bool> &v)
    {
        os << "[";
        for (std::size_t i = 0; i < v.size(); ++i) os << " " << static_cast<bool>(v[i]);
        os << " ]";
    }
};
struct Own { // a type with a printing operator of its own, counting how often it is printed
    int a = 0;
    static inline long printed = 0;
    static int index() // of a format setting of its own, which a stream carries
    {
        static const int i = std::ios_base::xalloc();
        return i;
    }
};
static std::ostream &operator<<(std::ostream &os, const Own &o)
{
    ++Own::printed;
    return os << "own<" << o.a << "," << os.iword(Own::index()) << ">";
}
struct Comma : std::numpunct<char> { // numbers as 1.234,5
    char do_decimal_point() const override
    {
        return ',';
    }
    char do_thousands_sep() const override
    {
        return '.';
    }
    std::string do_grouping() const override
    {
        return "\3";
    }
};
struct Fmt {
    int prec = 6;
    std::ios::fmtflags flags{};
    char fill = ' ';
    bool comma = false;
    long own = 0;
    void apply(std::ostream &os) const
    {
        if (comma) {
            static const std::locale l(std::locale::classic(), new Comma);
            os.imbue(l);
        }
        os.iword(Own::index()) = own;
        os.precision(prec);
        os.flags(flags);
        os.fill(fill);
    }
};
static Fmt gen_fmt(Gen &g)
{
    Fmt f;
    std::ostringstream d;
    f.flags = d.flags();
    if (g.flip()) {
        f.prec = g.in(0, 20);
        if (g.flip()) f.flags |= std::ios::showpos;
        if (g.flip()) f.flags |= std::ios::showpoint;
        if (g.flip()) f.flags |= std::ios::boolalpha;
        if (g.flip()) f.flags |= std::ios::uppercase;
        const unsigned k = g.u(0, 2);
        if (k == 1) f.flags |= std::ios::scientific;
        if (k == 2) f.flags |= std::ios::fixed;
        if (g.flip()) {
            f.flags &= ~std::ios::basefield;
            f.flags |= std::ios::hex | std::ios::showbase;
        }
        f.fill = g.flip() ? '*' : ' ';
        f.comma = g.flip();
        f.own = g.in(0, 3);
    }
    return f;
}
static std::string quoted(const std::string &s)
{
    std::string r = "'";
    r += s.substr(0, 300);
    return r + "'";
}
template <typename T>
static void compare(Gen &g, Case &c, const std::vector<T> &v)
{
    const Fmt f = gen_fmt(g);
    const std::string before = g.text("ab [", 3);
    std::ostringstream a, b;
    f.apply(a);
    f.apply(b);
    a << before;
    b << before;
    Ref<std::vector<T>>::put(b, v);
    const auto copy = v;
    std::ostream &r = (a << v);
    c.require(&r == &a, "stream", "streaming a vector does not return its stream");
    c.require(a.str() == b.str(), "text", "vector streamed as ", quoted(a.str()), ", expected ", quoted(b.str()));
    c.require(a.precision() == f.prec && a.flags() == f.flags && a.fill() == f.fill && a.good(), "state", "streaming a vector changed the state of the stream");
    a << "|" << v << 1.5;
    b << "|";
    Ref<std::vector<T>>::put(b, v);
    b << 1.5;
    c.require(a.str() == b.str(), "text", "second streaming gives ", quoted(a.str()), ", expected ", quoted(b.str()));
    c.note("text ", b.str().substr(0, 120));
    // a stream that cannot be written to stays so
    std::ostringstream bad;
    bad.setstate(std::ios::failbit);
    bad << v;
    c.require(bad.fail() && bad.str().empty(), "state", "a failed stream was written to or repaired");
}
template <typename T, typename F>
static std::vector<T> gen_vec(Gen &g, unsigned max, F gen, bool may_be_long = false)
{
    std::vector<T> v;
    const unsigned n = may_be_long && g.chance(1, 60) ? g.u(0, 2000) : g.small(0, max);
    for (unsigned i = 0; i < n; ++i) v.push_back(gen());
    return v;
}
static void scalars(Gen &g, Case &c)
{
    switch (g.u(0, 8)) {
        case 0: {
            auto v = gen_vec<int>(g, 12, [&]() { return g.in(-100000, 100000); }, true);
            c.nontrivial(v.size() > 1);
            compare(g, c, v);
            // and reads back
            std::ostringstream ss;
            ss << v;
            std::istringstream is(ss.str());
            std::string t;
            std::vector<int> back;
            is >> t;
            c.require(t == "[", "text", "no opening bracket in ", quoted(ss.str()));
            while (is >> t && t != "]") back.push_back(std::atoi(t.c_str()));
            c.require(t == "]" && back == v && !(is >> t), "text", "does not read back: ", quoted(ss.str()));
            break;
        }
        case 1: {
            auto v = gen_vec<double>(g, 12, [&]() { return g.any_double(); }, true);
            c.nontrivial(v.size() > 1);
            compare(g, c, v);
            break;
        }
        case 2: {
            auto v = gen_vec<std::string>(g, 12, [&]() { return g.text("ab ][,\n\t", 6); }, true);
            c.nontrivial(v.size() > 1);
            compare(g, c, v);
            break;
        }
        case 3: {
            auto v = gen_vec<unsigned>(g, 12, [&]() { return static_cast<unsigned>(g.raw(0xffffffffu)); }, true);
            c.nontrivial(v.size() > 1);
            compare(g, c, v);
            break;
        }
        case 4: {
            auto v = gen_vec<char>(g, 12, [&]() { return static_cast<char>(g.in(33, 126)); }, true);
            c.nontrivial(v.size() > 1);
            compare(g, c, v);
            break;
        }
        case 5: {
            auto v = gen_vec<long long>(g, 12, [&]() { return static_cast<long long>(g.raw(~std::uint64_t(0))); }, true);
            c.nontrivial(v.size() > 1);
            compare(g, c, v);
            break;
        }
        case 6: {
            auto v = gen_vec<bool>(g, 12, [&]() { return g.flip(); }, true);
            c.nontrivial(v.size() > 1);
            compare(g, c, v);
            break;
        }
        case 7: {
            auto v = gen_vec<const char *>(g, 12, [&]() { return g.flip() ? "x" : "yy"; }, true);
            c.nontrivial(v.size() > 1);
            compare(g, c, v);
            break;
        }
        default: {
            auto v = gen_vec<Own>(g, 12, [&]() { return Own{g.in(-9, 9)}; }, true);
            c.nontrivial(v.size() > 1);
            Own::printed = 0;
            std::ostringstream ss;
            ss << v;
            c.require(Own::printed == static_cast<long>(v.size()), "elements", Own::printed, " elements printed of ", v.size());
            compare(g, c, v);
        }
    }
}
static void nested(Gen &g, Case &c)
{
    if (g.flip()) {
        auto v = gen_vec<std::vector<double>>(g, 6, [&]() { return gen_vec<double>(g, 4, [&]() { return g.any_double(); }); });
        c.nontrivial(v.size() > 1);
        compare(g, c, v);
    } else {
        auto v = gen_vec<std::vector<std::vector<int>>>(g, 3, [&]() {
            return gen_vec<std::vector<int>>(g, 3, [&]() { return gen_vec<int>(g, 3, [&]() { return g.in(-9, 9); }); });
        });
        c.nontrivial(v.size() > 1);
        compare(g, c, v);
    }
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "S01";
    p.rule = "vectors of eight element types (integers, special doubles, strings with brackets and blanks, a user type) and nested vectors, of length up to 3000, "
             "on streams of random precision, flags and fill, compared with a reference printer; integers are also read back; non-trivial: more than one "
             "element; counted distinct by choice sequence";
    p.subs = {{"scalars", 150000, 3000000, scalars}, {"nested", 100000, 1500000, nested}};
    p.case_cpu_s = 20;
    return pbt::run(argc, argv, p);
}
