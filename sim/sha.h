// Independent SHA-512/256 for the reference model (written from FIPS 180-4, shares no code with /repo).
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <vector>
namespace ref {
inline uint64_t rr(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
inline const uint64_t* K512()
{
    static const uint64_t K[80] = {
        0x428a2f98d728ae22, 0x7137449123ef65cd, 0xb5c0fbcfec4d3b2f, 0xe9b5dba58189dbbc, 0x3956c25bf348b538, 0x59f111f1b605d019, 0x923f82a4af194f9b, 0xab1c5ed5da6d8118, 0xd807aa98a3030242, 0x12835b0145706fbe,
        0x243185be4ee4b28c, 0x550c7dc3d5ffb4e2, 0x72be5d74f27b896f, 0x80deb1fe3b1696b1, 0x9bdc06a725c71235, 0xc19bf174cf692694, 0xe49b69c19ef14ad2, 0xefbe4786384f25e3, 0x0fc19dc68b8cd5b5, 0x240ca1cc77ac9c65,
        0x2de92c6f592b0275, 0x4a7484aa6ea6e483, 0x5cb0a9dcbd41fbd4, 0x76f988da831153b5, 0x983e5152ee66dfab, 0xa831c66d2db43210, 0xb00327c898fb213f, 0xbf597fc7beef0ee4, 0xc6e00bf33da88fc2, 0xd5a79147930aa725,
        0x06ca6351e003826f, 0x142929670a0e6e70, 0x27b70a8546d22ffc, 0x2e1b21385c26c926, 0x4d2c6dfc5ac42aed, 0x53380d139d95b3df, 0x650a73548baf63de, 0x766a0abb3c77b2a8, 0x81c2c92e47edaee6, 0x92722c851482353b,
        0xa2bfe8a14cf10364, 0xa81a664bbc423001, 0xc24b8b70d0f89791, 0xc76c51a30654be30, 0xd192e819d6ef5218, 0xd69906245565a910, 0xf40e35855771202a, 0x106aa07032bbd1b8, 0x19a4c116b8d2d0c8, 0x1e376c085141ab53,
        0x2748774cdf8eeb99, 0x34b0bcb5e19b48a8, 0x391c0cb3c5c95a63, 0x4ed8aa4ae3418acb, 0x5b9cca4f7763e373, 0x682e6ff3d6b2b8a3, 0x748f82ee5defb2fc, 0x78a5636f43172f60, 0x84c87814a1f0ab72, 0x8cc702081a6439ec,
        0x90befffa23631e28, 0xa4506cebde82bde9, 0xbef9a3f7b2c67915, 0xc67178f2e372532b, 0xca273eceea26619c, 0xd186b8c721c0c207, 0xeada7dd6cde0eb1e, 0xf57d4f7fee6ed178, 0x06f067aa72176fba, 0x0a637dc5a2c898a6,
        0x113f9804bef90dae, 0x1b710b35131c471b, 0x28db77f523047d84, 0x32caab7b40c72493, 0x3c9ebe0a15c9bebc, 0x431d67c49c100d4c, 0x4cc5d4becb3e42b6, 0x597f299cfc657e2a, 0x5fcb6fab3ad6faec, 0x6c44198c4a475817};
    return K;
}
using H32 = std::array<uint8_t, 32>;
inline H32 sha512_256(const uint8_t* d, size_t len)
{
    uint64_t h[8] = {0x22312194FC2BF72C, 0x9F555FA3C84C64C2, 0x2393B86B6F53B151, 0x963877195940EABD, 0x96283EE2A88EFFE3, 0xBE5E1E2553863992, 0x2B0199FC2C85B8AA, 0x0EB72DDC81C52CA2};
    size_t total = ((len + 17 + 127) / 128) * 128;
    std::vector<uint8_t> m(total, 0);
    memcpy(m.data(), d, len);
    m[len] = 0x80;
    uint64_t bits = uint64_t(len) * 8;
    for (int i = 0; i < 8; i++) m[total - 1 - i] = uint8_t(bits >> (8 * i));
    const uint64_t* K = K512();
    for (size_t o = 0; o < total; o += 128) {
        uint64_t w[80];
        for (int i = 0; i < 16; i++) {
            w[i] = 0;
            for (int j = 0; j < 8; j++) w[i] = (w[i] << 8) | m[o + i * 8 + j];
        }
        for (int i = 16; i < 80; i++) {
            uint64_t a = w[i - 15], b = w[i - 2];
            w[i] = w[i - 16] + (rr(a, 1) ^ rr(a, 8) ^ (a >> 7)) + w[i - 7] + (rr(b, 19) ^ rr(b, 61) ^ (b >> 6));
        }
        uint64_t v[8];
        memcpy(v, h, sizeof v);
        for (int i = 0; i < 80; i++) {
            uint64_t t1 = v[7] + (rr(v[4], 14) ^ rr(v[4], 18) ^ rr(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i];
            uint64_t t2 = (rr(v[0], 28) ^ rr(v[0], 34) ^ rr(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
        }
        for (int i = 0; i < 8; i++) h[i] += v[i];
    }
    H32 out;
    for (int i = 0; i < 32; i++) out[i] = uint8_t(h[i / 8] >> (56 - 8 * (i % 8)));
    return out;
}
} // namespace ref
