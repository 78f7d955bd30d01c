// Offline stand-in for AuDi's io.hpp (see /verif/DESIGN.md, "The AuDi stand-in").
#ifndef AUDI_IO_HPP
#define AUDI_IO_HPP
#include <iostream>
#include <map>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace audi
{
namespace detail
{
template <typename T>
inline void stream_impl(std::ostream &os, const T &x);

inline void stream_impl(std::ostream &os, const bool &b)
{
    os << (b ? "true" : "false");
}
template <typename T>
inline void stream_impl(std::ostream &os, const std::vector<T> &v)
{
    os << '[';
    for (typename std::vector<T>::size_type i = 0; i < v.size(); ++i) {
        if (i) {
            os << ", ";
        }
        if (i == 5u && v.size() > 6u) {
            os << "... ]";
            return;
        }
        stream_impl(os, static_cast<const T &>(v[i]));
    }
    os << ']';
}
inline void stream_impl(std::ostream &os, const std::vector<bool> &v)
{
    os << '[';
    for (std::vector<bool>::size_type i = 0; i < v.size(); ++i) {
        os << (i ? ", " : "") << (v[i] ? "true" : "false");
    }
    os << ']';
}
template <typename T, typename U>
inline void stream_impl(std::ostream &os, const std::pair<T, U> &p)
{
    os << '(';
    stream_impl(os, p.first);
    os << ',';
    stream_impl(os, p.second);
    os << ')';
}
template <typename M>
inline void stream_map_impl(std::ostream &os, const M &m)
{
    os << '{';
    bool first = true;
    for (const auto &p : m) {
        if (!first) {
            os << ", ";
        }
        first = false;
        stream_impl(os, p.first);
        os << " : ";
        stream_impl(os, p.second);
    }
    os << '}';
}
template <typename T, typename U>
inline void stream_impl(std::ostream &os, const std::unordered_map<T, U> &m)
{
    stream_map_impl(os, m);
}
template <typename T, typename U>
inline void stream_impl(std::ostream &os, const std::map<T, U> &m)
{
    stream_map_impl(os, m);
}
template <typename T>
inline void stream_impl(std::ostream &os, const T &x)
{
    os << x;
}
} // namespace detail

inline void stream(std::ostream &) {}
template <typename T, typename... Args>
inline void stream(std::ostream &os, const T &x, const Args &...args)
{
    detail::stream_impl(os, x);
    stream(os, args...);
}
template <typename... Args>
inline void print(const Args &...args)
{
    stream(std::cout, args...);
}
} // namespace audi
#endif
