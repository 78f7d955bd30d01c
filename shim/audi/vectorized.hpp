// Offline stand-in for AuDi's vectorized.hpp: an array type with element-wise arithmetic, size-1 operands broadcast.
#ifndef AUDI_VECTORIZED_HPP
#define AUDI_VECTORIZED_HPP
#include <algorithm>
#include <cmath>
#include <initializer_list>
#include <iostream>
#include <stdexcept>
#include <type_traits>
#include <vector>

#include <boost/serialization/vector.hpp>

#include <audi/io.hpp>

namespace audi
{
template <typename T>
struct vectorized {
    using v_type = std::vector<T>;
    using value_type = T;
    using size_type = typename v_type::size_type;

    vectorized() : m_c(1, T(0)) {}
    template <typename T1, std::enable_if_t<std::is_arithmetic<T1>::value, int> = 0>
    explicit vectorized(T1 v) : m_c(1, static_cast<T>(v))
    {
    }
    explicit vectorized(const std::vector<T> &c) : m_c(c)
    {
        check();
    }
    explicit vectorized(std::vector<T> &&c) : m_c(std::move(c))
    {
        check();
    }
    explicit vectorized(std::initializer_list<T> c) : m_c(c)
    {
        check();
    }

    // ---- element-wise arithmetic
#define AUDI_SHIM_VOP(op)                                                                                              \
    vectorized &operator op##=(const vectorized &o)                                                                    \
    {                                                                                                                  \
        if (o.size() == m_c.size()) {                                                                                  \
            for (size_type i = 0; i < m_c.size(); ++i) m_c[i] op## = o.m_c[i];                                         \
        } else if (o.size() == 1u) {                                                                                   \
            const T x = o.m_c[0];                                                                                      \
            for (auto &c : m_c) c op## = x;                                                                            \
        } else if (m_c.size() == 1u) {                                                                                 \
            const T x = m_c[0];                                                                                        \
            m_c.assign(o.size(), x);                                                                                   \
            for (size_type i = 0; i < m_c.size(); ++i) m_c[i] op## = o.m_c[i];                                         \
        } else {                                                                                                       \
            throw std::invalid_argument("Coefficients of different sizes in vectorized arithmetic");                   \
        }                                                                                                              \
        return *this;                                                                                                  \
    }                                                                                                                  \
    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value, int> = 0>                                     \
    vectorized &operator op##=(const A &x)                                                                             \
    {                                                                                                                  \
        for (auto &c : m_c) c op## = static_cast<T>(x);                                                                \
        return *this;                                                                                                  \
    }                                                                                                                  \
    friend vectorized operator op(vectorized a, const vectorized &b)                                                   \
    {                                                                                                                  \
        a op## = b;                                                                                                    \
        return a;                                                                                                      \
    }                                                                                                                  \
    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value, int> = 0>                                     \
    friend vectorized operator op(vectorized a, const A &b)                                                            \
    {                                                                                                                  \
        a op## = b;                                                                                                    \
        return a;                                                                                                      \
    }                                                                                                                  \
    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value, int> = 0>                                     \
    friend vectorized operator op(const A &a, const vectorized &b)                                                     \
    {                                                                                                                  \
        vectorized r(static_cast<T>(a));                                                                               \
        r op## = b;                                                                                                    \
        return r;                                                                                                      \
    }
    AUDI_SHIM_VOP(+)
    AUDI_SHIM_VOP(-)
    AUDI_SHIM_VOP(*)
    AUDI_SHIM_VOP(/)
#undef AUDI_SHIM_VOP

    vectorized operator-() const
    {
        vectorized r(*this);
        for (auto &c : r.m_c) c = -c;
        return r;
    }
    const vectorized &operator+() const
    {
        return *this;
    }

    // ---- comparisons: hold when they hold for every element
    template <typename Cmp>
    static bool all_cmp(const vectorized &a, const vectorized &b, Cmp c)
    {
        if (a.size() == b.size()) {
            return std::equal(a.begin(), a.end(), b.begin(), c);
        } else if (a.size() == 1u) {
            return std::all_of(b.begin(), b.end(), [&](const T &x) { return c(a.m_c[0], x); });
        } else if (b.size() == 1u) {
            return std::all_of(a.begin(), a.end(), [&](const T &x) { return c(x, b.m_c[0]); });
        }
        return false;
    }
    friend bool operator==(const vectorized &a, const vectorized &b)
    {
        return all_cmp(a, b, [](const T &x, const T &y) { return x == y; });
    }
    friend bool operator!=(const vectorized &a, const vectorized &b)
    {
        return !(a == b);
    }
    friend bool operator<(const vectorized &a, const vectorized &b)
    {
        return all_cmp(a, b, [](const T &x, const T &y) { return x < y; });
    }
    friend bool operator>(const vectorized &a, const vectorized &b)
    {
        return all_cmp(a, b, [](const T &x, const T &y) { return x > y; });
    }
    friend bool operator<=(const vectorized &a, const vectorized &b)
    {
        return all_cmp(a, b, [](const T &x, const T &y) { return x <= y; });
    }
    friend bool operator>=(const vectorized &a, const vectorized &b)
    {
        return all_cmp(a, b, [](const T &x, const T &y) { return x >= y; });
    }
#define AUDI_SHIM_VCMP(op)                                                                                             \
    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value, int> = 0>                                     \
    friend bool operator op(const vectorized &a, const A &b)                                                           \
    {                                                                                                                  \
        return a op vectorized(b);                                                                                     \
    }                                                                                                                  \
    template <typename A, std::enable_if_t<std::is_arithmetic<A>::value, int> = 0>                                     \
    friend bool operator op(const A &a, const vectorized &b)                                                           \
    {                                                                                                                  \
        return vectorized(a) op b;                                                                                     \
    }
    AUDI_SHIM_VCMP(==)
    AUDI_SHIM_VCMP(!=)
    AUDI_SHIM_VCMP(<)
    AUDI_SHIM_VCMP(>)
    AUDI_SHIM_VCMP(<=)
    AUDI_SHIM_VCMP(>=)
#undef AUDI_SHIM_VCMP

    friend vectorized abs(vectorized in)
    {
        for (auto &c : in.m_c) c = std::abs(c);
        return in;
    }
    friend std::ostream &operator<<(std::ostream &os, const vectorized &v)
    {
        audi::stream(os, v.m_c);
        return os;
    }

    size_type size() const
    {
        return m_c.size();
    }
    typename v_type::const_iterator begin() const
    {
        return m_c.begin();
    }
    typename v_type::const_iterator end() const
    {
        return m_c.end();
    }
    typename v_type::iterator begin()
    {
        return m_c.begin();
    }
    typename v_type::iterator end()
    {
        return m_c.end();
    }
    T operator[](const size_type idx) const
    {
        return m_c.size() == 1u ? m_c[0] : m_c[idx];
    }
    T &operator[](const size_type idx)
    {
        return m_c.size() == 1u ? m_c[0] : m_c[idx];
    }
    void resize(size_type n, T val = T(0))
    {
        m_c.resize(n, val);
    }
    const v_type &get_v() const
    {
        return m_c;
    }
    void set_value(const size_type idx, const T &val)
    {
        m_c[idx] = val;
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_c;
    }

private:
    void check() const
    {
        if (m_c.empty()) {
            throw std::invalid_argument("Cannot build an empty coefficient_v (audi)");
        }
    }
    std::vector<T> m_c;
};
using vectorized_double = vectorized<double>;
} // namespace audi
#endif
