// Offline stand-in for AuDi's gdual: a truncated multivariate Taylor polynomial, naive and written for clarity.
#ifndef AUDI_GDUAL_HPP
#define AUDI_GDUAL_HPP
#include <algorithm>
#include <cmath>
#include <initializer_list>
#include <iostream>
#include <map>
#include <numeric>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>

#include <boost/lexical_cast.hpp>

#include <audi/io.hpp>
#include <audi/vectorized.hpp>

namespace audi
{
template <typename Cf>
class gdual
{
public:
    using cf_type = Cf;
    using key_type = std::vector<unsigned>;
    using container_type = std::map<key_type, Cf>;

    gdual() : m_order(0u)
    {
        m_c[key_type{}] = Cf(0.);
    }
    gdual(const gdual &) = default;
    gdual(gdual &&) = default;
    gdual &operator=(const gdual &) = default;
    gdual &operator=(gdual &&) = default;

    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value, int> = 0>
    explicit gdual(const A &v) : m_order(0u)
    {
        m_c[key_type{}] = Cf(static_cast<double>(v));
    }
    template <typename C = Cf, std::enable_if_t<!std::is_arithmetic<C>::value, int> = 0>
    explicit gdual(const Cf &v) : m_order(0u)
    {
        m_c[key_type{}] = v;
    }
    template <typename C = Cf, std::enable_if_t<!std::is_arithmetic<C>::value, int> = 0>
    explicit gdual(const std::vector<double> &v) : m_order(0u)
    {
        m_c[key_type{}] = Cf(v);
    }
    template <typename C = Cf, std::enable_if_t<!std::is_arithmetic<C>::value, int> = 0>
    explicit gdual(std::initializer_list<double> v) : m_order(0u)
    {
        m_c[key_type{}] = Cf(std::vector<double>(v));
    }
    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value, int> = 0>
    explicit gdual(const A &v, const std::string &symbol, unsigned order) : gdual(Cf(static_cast<double>(v)), symbol, order, 0)
    {
    }
    template <typename C = Cf, std::enable_if_t<!std::is_arithmetic<C>::value, int> = 0>
    explicit gdual(const Cf &v, const std::string &symbol, unsigned order) : gdual(v, symbol, order, 0)
    {
    }
    template <typename C = Cf, std::enable_if_t<!std::is_arithmetic<C>::value, int> = 0>
    explicit gdual(const std::vector<double> &v, const std::string &symbol, unsigned order)
        : gdual(Cf(v), symbol, order, 0)
    {
    }
    template <typename C = Cf, std::enable_if_t<!std::is_arithmetic<C>::value, int> = 0>
    explicit gdual(std::initializer_list<double> v, const std::string &symbol, unsigned order)
        : gdual(Cf(std::vector<double>(v)), symbol, order, 0)
    {
    }
    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value, int> = 0>
    gdual &operator=(const A &v)
    {
        return *this = gdual(v);
    }

    // ---------------------------------------------------------------- queries
    unsigned get_order() const
    {
        return m_order;
    }
    const std::vector<std::string> &get_symbol_set() const
    {
        return m_s;
    }
    std::size_t get_symbol_set_size() const
    {
        return m_s.size();
    }
    unsigned degree() const
    {
        unsigned d = 0;
        for (const auto &p : m_c) {
            if (!(p.second == Cf(0.))) d = std::max(d, deg(p.first));
        }
        return d;
    }
    bool is_zero(double tol = 0.) const
    {
        for (const auto &p : m_c) {
            if (!small(p.second, tol)) return false;
        }
        return true;
    }
    Cf constant_cf() const
    {
        auto it = m_c.find(key_type(m_s.size(), 0u));
        return it == m_c.end() ? Cf(0.) : it->second;
    }
    template <typename I>
    Cf find_cf(const std::vector<I> &c) const
    {
        return find_cf_impl(c.begin(), c.end());
    }
    template <typename I>
    Cf find_cf(std::initializer_list<I> c) const
    {
        return find_cf_impl(c.begin(), c.end());
    }
    template <typename I>
    Cf get_derivative(const std::vector<I> &c) const
    {
        return find_cf_impl(c.begin(), c.end()) * fact(c.begin(), c.end());
    }
    template <typename I, std::enable_if_t<std::is_arithmetic<I>::value, int> = 0>
    Cf get_derivative(std::initializer_list<I> c) const
    {
        return find_cf_impl(c.begin(), c.end()) * fact(c.begin(), c.end());
    }
    Cf get_derivative(const std::unordered_map<std::string, unsigned> &dict) const
    {
        std::vector<unsigned> k(m_s.size(), 0u);
        bool unknown = false;
        for (const auto &p : dict) {
            auto it = std::find(m_s.begin(), m_s.end(), p.first);
            if (it == m_s.end()) {
                unknown = unknown || p.second > 0u;
            } else {
                k[static_cast<std::size_t>(it - m_s.begin())] = p.second;
            }
        }
        if (unknown) {
            return Cf(0.);
        }
        return get_derivative(k);
    }
    void extend_symbol_set(const std::vector<std::string> &sym)
    {
        for (const auto &s : sym) {
            if (s.empty() || s[0] != 'd') {
                throw std::invalid_argument("gdual symbols must start with the letter d: " + s);
            }
        }
        for (const auto &s : m_s) {
            if (std::find(sym.begin(), sym.end(), s) == sym.end()) {
                throw std::invalid_argument("extend_symbol_set: the symbol set must contain the current one");
            }
        }
        std::vector<std::string> ns(sym);
        std::sort(ns.begin(), ns.end());
        ns.erase(std::unique(ns.begin(), ns.end()), ns.end());
        remap(ns);
    }
    Cf evaluate(const std::unordered_map<std::string, double> &dict) const
    {
        Cf r(0.);
        for (const auto &p : m_c) {
            double f = 1.;
            for (std::size_t i = 0; i < m_s.size(); ++i) {
                if (p.first[i]) f *= std::pow(dict.at(m_s[i]), p.first[i]);
            }
            r = r + p.second * f;
        }
        return r;
    }
    gdual trim(double tol) const
    {
        gdual r(*this);
        for (auto it = r.m_c.begin(); it != r.m_c.end();) {
            it = small(it->second, tol) ? r.m_c.erase(it) : std::next(it);
        }
        return r;
    }
    const container_type &_poly() const
    {
        return m_c;
    }

    // ------------------------------------------------------------- arithmetic
    gdual &operator+=(const gdual &o)
    {
        return add(o, 1.);
    }
    gdual &operator-=(const gdual &o)
    {
        return add(o, -1.);
    }
    gdual &operator*=(const gdual &o)
    {
        return *this = mul(*this, o);
    }
    gdual &operator/=(const gdual &o)
    {
        return *this = div(*this, o);
    }
    gdual operator-() const
    {
        gdual r(*this);
        for (auto &p : r.m_c) p.second = -p.second;
        return r;
    }
    gdual operator+() const
    {
        return *this;
    }
#define AUDI_SHIM_GOP(op)                                                                                              \
    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value || std::is_same<A, Cf>::value, int> = 0>       \
    gdual &operator op##=(const A &o)                                                                                  \
    {                                                                                                                  \
        return *this op## = gdual(o);                                                                                  \
    }                                                                                                                  \
    friend gdual operator op(const gdual &a, const gdual &b)                                                           \
    {                                                                                                                  \
        gdual r(a);                                                                                                    \
        r op## = b;                                                                                                    \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value || std::is_same<A, Cf>::value, int> = 0>       \
    friend gdual operator op(const gdual &a, const A &b)                                                               \
    {                                                                                                                  \
        return a op gdual(b);                                                                                          \
    }                                                                                                                  \
    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value || std::is_same<A, Cf>::value, int> = 0>       \
    friend gdual operator op(const A &a, const gdual &b)                                                               \
    {                                                                                                                  \
        return gdual(a) op b;                                                                                          \
    }
    AUDI_SHIM_GOP(+)
    AUDI_SHIM_GOP(-)
    AUDI_SHIM_GOP(*)
    AUDI_SHIM_GOP(/)
#undef AUDI_SHIM_GOP

    friend bool operator==(const gdual &a, const gdual &b)
    {
        gdual d = a - b;
        return d.is_zero(0.);
    }
    friend bool operator!=(const gdual &a, const gdual &b)
    {
        return !(a == b);
    }
    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value, int> = 0>
    friend bool operator==(const gdual &a, const A &b)
    {
        return a == gdual(b);
    }
    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value, int> = 0>
    friend bool operator!=(const gdual &a, const A &b)
    {
        return !(a == gdual(b));
    }

    // Ordering looks at the constant coefficients only.
#define AUDI_SHIM_GCMP(op)                                                                                             \
    friend bool operator op(const gdual &a, const gdual &b)                                                            \
    {                                                                                                                  \
        return a.constant_cf() op b.constant_cf();                                                                     \
    }                                                                                                                  \
    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value, int> = 0>                                     \
    friend bool operator op(const gdual &a, const A &b)                                                                \
    {                                                                                                                  \
        return a.constant_cf() op static_cast<double>(b);                                                              \
    }                                                                                                                  \
    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value, int> = 0>                                     \
    friend bool operator op(const A &a, const gdual &b)                                                                \
    {                                                                                                                  \
        return static_cast<double>(a) op b.constant_cf();                                                              \
    }
    AUDI_SHIM_GCMP(<)
    AUDI_SHIM_GCMP(>)
    AUDI_SHIM_GCMP(<=)
    AUDI_SHIM_GCMP(>=)
#undef AUDI_SHIM_GCMP

    friend std::ostream &operator<<(std::ostream &os, const gdual &d)
    {
        bool first = true;
        for (const auto &p : d.m_c) {
            if (p.second == Cf(0.)) continue;
            os << (first ? "" : "+") << p.second;
            for (std::size_t i = 0; i < d.m_s.size(); ++i) {
                if (p.first[i]) os << "*" << d.m_s[i] << "**" << p.first[i];
            }
            first = false;
        }
        if (first) os << "0";
        return os;
    }

    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_s;
        ar &m_c;
        ar &m_order;
    }

    // Composition with a univariate function: `coeffs(c0, order)` returns the Taylor coefficients at c0.
    template <typename F>
    gdual compose(F coeffs) const
    {
        const Cf c0 = constant_cf();
        const std::vector<Cf> t = coeffs(c0, m_order);
        gdual p(*this);
        p.m_c.erase(key_type(m_s.size(), 0u));
        gdual r;
        r.m_s = m_s;
        r.m_order = m_order;
        r.m_c.clear();
        r.m_c[key_type(m_s.size(), 0u)] = t[m_order];
        for (unsigned k = m_order; k-- > 0u;) {
            r = mul(r, p);
            auto &cc = r.m_c[key_type(m_s.size(), 0u)];
            cc = t[k]; // p has no constant term, hence neither has r * p
        }
        return r;
    }

private:
    gdual(const Cf &v, const std::string &symbol, unsigned order, int) : m_order(order)
    {
        if (order == 0u) {
            throw std::invalid_argument("polynomial truncation order must be >= 1");
        }
        if (symbol.empty() || symbol[0] == 'd') {
            throw std::invalid_argument("symbol names cannot be empty or start with the letter d");
        }
        m_s.push_back("d" + symbol);
        m_c[key_type{0u}] = v;
        m_c[key_type{1u}] = Cf(1.);
    }
    static bool small(const double &x, double tol)
    {
        return std::abs(x) <= tol;
    }
    template <typename U>
    static bool small(const U &x, double tol)
    {
        return std::all_of(x.begin(), x.end(), [tol](double y) { return std::abs(y) <= tol; });
    }
    static unsigned deg(const key_type &k)
    {
        return std::accumulate(k.begin(), k.end(), 0u);
    }
    template <typename It>
    Cf find_cf_impl(It b, It e) const
    {
        if (static_cast<std::size_t>(std::distance(b, e)) != m_s.size()) {
            throw std::invalid_argument("the monomial requested has a number of variables different from the symbol set size");
        }
        key_type k;
        for (; b != e; ++b) k.push_back(static_cast<unsigned>(*b));
        if (deg(k) > m_order) {
            throw std::invalid_argument("requesting a coefficient beyond the truncation order");
        }
        auto it = m_c.find(k);
        return it == m_c.end() ? Cf(0.) : it->second;
    }
    template <typename It>
    static double fact(It b, It e)
    {
        double r = 1.;
        for (; b != e; ++b) {
            for (unsigned i = 2; i <= static_cast<unsigned>(*b); ++i) r *= i;
        }
        return r;
    }
    void remap(const std::vector<std::string> &ns)
    {
        if (ns == m_s) return;
        std::vector<std::size_t> where;
        for (const auto &s : m_s) {
            where.push_back(static_cast<std::size_t>(std::find(ns.begin(), ns.end(), s) - ns.begin()));
        }
        container_type nc;
        for (auto &p : m_c) {
            key_type k(ns.size(), 0u);
            for (std::size_t i = 0; i < where.size(); ++i) k[where[i]] = p.first[i];
            nc.emplace(std::move(k), p.second);
        }
        m_c = std::move(nc);
        m_s = ns;
    }
    static std::vector<std::string> merge(const gdual &a, const gdual &b)
    {
        std::vector<std::string> r(a.m_s);
        r.insert(r.end(), b.m_s.begin(), b.m_s.end());
        std::sort(r.begin(), r.end());
        r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }
    gdual &add(const gdual &o, double sign)
    {
        gdual b(o);
        if (m_s != b.m_s) {
            const auto s = merge(*this, b);
            remap(s);
            b.remap(s);
        }
        m_order = std::max(m_order, b.m_order);
        for (const auto &p : b.m_c) {
            auto it = m_c.find(p.first);
            if (it == m_c.end()) {
                m_c.emplace(p.first, sign > 0 ? p.second : -p.second);
            } else if (sign > 0) {
                it->second += p.second;
            } else {
                it->second -= p.second;
            }
        }
        return *this;
    }
    static gdual mul(const gdual &a0, const gdual &b0)
    {
        gdual a(a0), b(b0);
        if (a.m_s != b.m_s) {
            const auto s = merge(a, b);
            a.remap(s);
            b.remap(s);
        }
        gdual r;
        r.m_s = a.m_s;
        r.m_order = std::max(a.m_order, b.m_order);
        r.m_c.clear();
        key_type k(r.m_s.size());
        for (const auto &p : a.m_c) {
            const unsigned da = deg(p.first);
            for (const auto &q : b.m_c) {
                if (da + deg(q.first) > r.m_order) continue;
                for (std::size_t i = 0; i < k.size(); ++i) k[i] = p.first[i] + q.first[i];
                auto it = r.m_c.find(k);
                if (it == r.m_c.end()) {
                    r.m_c.emplace(k, p.second * q.second);
                } else {
                    it->second += p.second * q.second;
                }
            }
        }
        return r;
    }
    static gdual div(const gdual &a, const gdual &b)
    {
        if (b.m_order == 0u) {
            gdual r(a);
            const Cf c = b.constant_cf();
            for (auto &p : r.m_c) p.second /= c;
            return r;
        }
        return mul(a, b.compose([](const Cf &c, unsigned n) {
            std::vector<Cf> t;
            Cf x = 1. / c;
            for (unsigned i = 0; i <= n; ++i) {
                t.push_back(x);
                x = -x / c;
            }
            return t;
        }));
    }

    std::vector<std::string> m_s; // sorted symbols, each starting with 'd'
    container_type m_c;
    unsigned m_order;
};

using gdual_d = gdual<double>;
using gdual_v = gdual<vectorized<double>>;
} // namespace audi
#endif
