// Deterministic PRNG (splitmix64 seeding, xoshiro256**). No other source of randomness exists in the simulator.
#pragma once
#include <cstdint>
struct Rng {
    uint64_t s[4];
    static uint64_t mix(uint64_t& x)
    {
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed = 1)
    {
        for (auto& v : s) v = mix(seed);
    }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next()
    {
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t;
        s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; } // n == 0 -> 0
    bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
};
inline uint64_t hash2(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15ULL);
    uint64_t y = Rng::mix(x) ^ b;
    return Rng::mix(y);
}
