// The 32-bit Mersenne Twister of Matsumoto and Nishimura (1998), written from the paper.
#ifndef VERIF_MT_HPP
#define VERIF_MT_HPP
#include <cstdint>
#include <cstdlib>
struct RefMT {
    std::uint32_t x[624];
    int i = 624;
    explicit RefMT(std::uint32_t s)
    {
        seed(s);
    }
    void seed(std::uint32_t s)
    {
        x[0] = s;
        for (std::uint32_t k = 1; k < 624; ++k) x[k] = 1812433253u * (x[k - 1] ^ (x[k - 1] >> 30)) + k;
        i = 624;
    }
    std::uint32_t next()
    {
        if (i == 624) {
            for (int k = 0; k < 624; ++k) {
                const std::uint32_t y = (x[k] & 0x80000000u) | (x[(k + 1) % 624] & 0x7fffffffu);
                x[k] = x[(k + 397) % 624] ^ (y >> 1) ^ ((y & 1u) ? 0x9908b0dfu : 0u);
            }
            i = 0;
        }
        std::uint32_t y = x[i++];
        y ^= y >> 11;
        y ^= (y << 7) & 0x9d2c5680u;
        y ^= (y << 15) & 0xefc60000u;
        return y ^ (y >> 18);
    }
    // A double in [0, 1) from two draws, low word first.
    double canonical()
    {
        const double lo = next();
        const double hi = next();
        double r = (lo + hi * 4294967296.) / 18446744073709551616.;
        if (r >= 1.) r = 1. - 1.1102230246251565e-16;
        return r;
    }
    double uniform(double a, double b)
    {
        return a + (b - a) * canonical();
    }
    // The check value of the C++ standard: the 10000th number from the default seed.
    static bool self_test()
    {
        RefMT m(5489u);
        std::uint32_t v = 0;
        for (int k = 0; k < 10000; ++k) v = m.next();
        return v == 4123659995u;
    }
};
#endif
