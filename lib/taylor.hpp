// Taylor coefficients of a function of one variable at zero, in quadruple precision, by interpolation.
#ifndef VERIF_TAYLOR_HPP
#define VERIF_TAYLOR_HPP
#include <array>
#include <vector>

#include <ev.hpp>

namespace ev
{
// Coefficients 0..4 of f(t), from its values at t = -4h..4h.
template <typename F>
inline std::array<q, 5> taylor(F f, double hd = 1e-4)
{
    constexpr int N = 9;
    static const std::array<std::array<q, N>, N> inv = [] {
        // the inverse of the Vandermonde matrix of the nodes -4..4
        std::array<std::array<q, 2 * N>, N> a;
        for (int i = 0; i < N; ++i) {
            q p = 1;
            for (int j = 0; j < N; ++j) {
                a[i][j] = p;
                p *= q(i - 4);
                a[i][N + j] = i == j ? 1 : 0;
            }
        }
        for (int c = 0; c < N; ++c) {
            int piv = c;
            for (int r = c; r < N; ++r)
                if (fabsq(a[r][c]) > fabsq(a[piv][c])) piv = r;
            std::swap(a[c], a[piv]);
            const q d = a[c][c];
            for (auto &x : a[c]) x /= d;
            for (int r = 0; r < N; ++r) {
                if (r == c) continue;
                const q m = a[r][c];
                for (int j = 0; j < 2 * N; ++j) a[r][j] -= m * a[c][j];
            }
        }
        std::array<std::array<q, N>, N> r;
        for (int i = 0; i < N; ++i)
            for (int j = 0; j < N; ++j) r[i][j] = a[i][N + j];
        return r;
    }();
    std::array<q, N> v;
    const q h = hd;
    for (int i = 0; i < N; ++i) v[i] = f(h * q(i - 4));
    std::array<q, 5> c;
    q s = 1;
    for (int k = 0; k < 5; ++k) {
        c[k] = 0;
        for (int i = 0; i < N; ++i) c[k] += inv[k][i] * v[i];
        c[k] /= s;
        s *= h;
    }
    return c;
}
} // namespace ev
#endif
