// Evaluation of a printed expression, with the precedences of Python (and of SymEngine): ** binds tighter than a
// unary sign on its left, which binds tighter than * and /, then + and -.
#ifndef VERIF_PARSER_HPP
#define VERIF_PARSER_HPP
#include <cctype>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>

#include <ev.hpp>

namespace ev
{
struct Malformed : std::runtime_error {
    using std::runtime_error::runtime_error;
};

template <typename T>
class Parser
{
public:
    Parser(const std::string &s, const std::map<std::string, T> &vars) : m_s(s), m_vars(vars) {}
    T run()
    {
        T r = expr();
        ws();
        if (m_i != m_s.size()) die("unexpected text");
        return r;
    }

private:
    [[noreturn]] void die(const std::string &w)
    {
        throw Malformed(w + " at position " + std::to_string(m_i) + " of " + m_s);
    }
    void ws()
    {
        while (m_i < m_s.size() && m_s[m_i] == ' ') ++m_i;
    }
    bool eat(const char *t)
    {
        ws();
        const std::string u(t);
        if (m_s.compare(m_i, u.size(), u) != 0) return false;
        if (u == "*" && m_i + 1 < m_s.size() && m_s[m_i + 1] == '*') return false;
        m_i += u.size();
        return true;
    }
    T expr()
    {
        T a = term();
        for (;;) {
            if (eat("+")) {
                a = a + term();
            } else if (eat("-")) {
                a = a - term();
            } else {
                return a;
            }
        }
    }
    T term()
    {
        T a = factor();
        for (;;) {
            if (eat("*")) {
                a = a * factor();
            } else if (eat("/")) {
                const T b = factor();
                kink(b);
                a = a / b;
            } else {
                return a;
            }
        }
    }
    T factor()
    {
        if (++m_depth > 20000) die("too deep");
        T r = eat("-") ? -factor() : (eat("+") ? factor() : power());
        --m_depth;
        return r;
    }
    T power()
    {
        T a = atom();
        if (!eat("**")) return a;
        ws();
        if (eat("2")) {
            if (m_i < m_s.size() && (std::isalnum(static_cast<unsigned char>(m_s[m_i])) || m_s[m_i] == '.' || m_s[m_i] == '_')) die("exponent");
            return a * a;
        }
        const std::size_t p = m_i;
        if (std::isdigit(static_cast<unsigned char>(m_s[p]))) {
            char *e;
            const long n = std::strtol(m_s.c_str() + p, &e, 10);
            m_i = static_cast<std::size_t>(e - m_s.c_str());
            T r(1.);
            for (long i = 0; i < n; ++i) r = r * a;
            return r;
        }
        die("exponent");
    }
    T atom()
    {
        ws();
        if (eat("(")) {
            T r = expr();
            if (!eat(")")) die("missing )");
            return r;
        }
        if (m_i >= m_s.size()) die("unexpected end");
        const char c = m_s[m_i];
        if (std::isdigit(static_cast<unsigned char>(c)) || c == '.') {
            char *e;
            const double d = std::strtod(m_s.c_str() + m_i, &e);
            const std::size_t j = static_cast<std::size_t>(e - m_s.c_str());
            if (j == m_i) die("number");
            m_i = j;
            return T(d);
        }
        if (std::isalpha(static_cast<unsigned char>(c)) || c == '_') {
            std::size_t j = m_i;
            while (j < m_s.size() && (std::isalnum(static_cast<unsigned char>(m_s[j])) || m_s[j] == '_')) ++j;
            const std::string name = m_s.substr(m_i, j - m_i);
            m_i = j;
            auto it = m_vars.find(name);
            if (it != m_vars.end()) return it->second;
            if (!eat("(")) die("unknown name " + name);
            T a = expr();
            if (!eat(")")) die("missing )");
            return call1(name, a);
        }
        die("unexpected character");
    }

    const std::string &m_s;
    const std::map<std::string, T> &m_vars;
    std::size_t m_i = 0;
    int m_depth = 0;
};

template <typename T>
inline T eval_text(const std::string &s, const std::map<std::string, T> &vars)
{
    return Parser<T>(s, vars).run();
}
} // namespace ev
#endif
