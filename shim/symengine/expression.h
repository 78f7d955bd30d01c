// Offline stand-in for SymEngine::Expression: carries the text it was built from, without simplification.
#ifndef SYMENGINE_EXPRESSION_H
#define SYMENGINE_EXPRESSION_H
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>

namespace SymEngine
{
class Expression
{
public:
    Expression() : m_s("0") {}
    Expression(const std::string &s) : m_s(s) {}
    Expression(const char *s) : m_s(s) {}
    template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
    Expression(T x)
    {
        std::ostringstream ss;
        ss.precision(17);
        ss << x;
        m_s = ss.str();
    }
#define SYMENGINE_SHIM_OP(op)                                                                                          \
    friend Expression operator op(const Expression &a, const Expression &b)                                            \
    {                                                                                                                  \
        return Expression("(" + a.m_s + ")" #op "(" + b.m_s + ")");                                                    \
    }                                                                                                                  \
    Expression &operator op##=(const Expression &b)                                                                    \
    {                                                                                                                  \
        return *this = *this op b;                                                                                     \
    }
    SYMENGINE_SHIM_OP(+)
    SYMENGINE_SHIM_OP(-)
    SYMENGINE_SHIM_OP(*)
    SYMENGINE_SHIM_OP(/)
#undef SYMENGINE_SHIM_OP
    Expression operator-() const
    {
        return Expression("-(" + m_s + ")");
    }
    friend bool operator==(const Expression &a, const Expression &b)
    {
        return a.m_s == b.m_s;
    }
    friend bool operator!=(const Expression &a, const Expression &b)
    {
        return !(a == b);
    }
    friend std::ostream &operator<<(std::ostream &os, const Expression &e)
    {
        return os << e.m_s;
    }

private:
    std::string m_s;
};
inline Expression expand(const Expression &e)
{
    return e;
}
inline Expression pow(const Expression &a, const Expression &b)
{
    std::ostringstream sa, sb;
    sa << a;
    sb << b;
    return Expression("(" + sa.str() + ")**(" + sb.str() + ")");
}
} // namespace SymEngine
#endif
