#pragma once
#include "vf.h"
/* FIPS 180-4: constants computed from the primes (4.2.2, 5.3.2, 5.3.3), functions of 4.1.2 */
static const uint32_t FK[64] = { 0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2 };
static const uint32_t I256[8] = { 0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19 };
static const uint32_t I224[8] = { 0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4 };
static inline uint32_t rotr(uint32_t x, int n) { return x >> n | x << (32 - n); }
static inline uint32_t fs0(uint32_t x) { return rotr(x, 7) ^ rotr(x, 18) ^ x >> 3; }
static inline uint32_t fs1(uint32_t x) { return rotr(x, 17) ^ rotr(x, 19) ^ x >> 10; }
static inline uint32_t fS0(uint32_t x) { return rotr(x, 2) ^ rotr(x, 13) ^ rotr(x, 22); }
static inline uint32_t fS1(uint32_t x) { return rotr(x, 6) ^ rotr(x, 11) ^ rotr(x, 25); }
static inline uint32_t fCh(uint32_t x, uint32_t y, uint32_t z) { return (x & y) ^ (~x & z); }
static inline uint32_t fMaj(uint32_t x, uint32_t y, uint32_t z) { return (x & y) ^ (x & z) ^ (y & z); }
static inline uint32_t be32_at(const uint8_t *p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
#ifdef VF_NATIVE
static inline void fips_block(uint32_t *H, const uint8_t *m)
{
    uint32_t W[64], v[8];
    for (int t = 0; t < 16; t++) W[t] = be32_at(m + 4 * t);
    for (int t = 16; t < 64; t++) W[t] = fs1(W[t - 2]) + W[t - 7] + fs0(W[t - 15]) + W[t - 16];
    for (int i = 0; i < 8; i++) v[i] = H[i];
    for (int t = 0; t < 64; t++) {
        uint32_t T1 = v[7] + fS1(v[4]) + fCh(v[4], v[5], v[6]) + FK[t] + W[t], T2 = fS0(v[0]) + fMaj(v[0], v[1], v[2]);
        for (int i = 7; i > 0; i--) v[i] = v[i - 1];
        v[4] += T1; v[0] = T1 + T2;
    }
    for (int i = 0; i < 8; i++) H[i] += v[i];
}
static inline void fips(uint8_t *out, int bytes, const uint8_t *m, uint64_t n)
{
    uint32_t H[8]; for (int i = 0; i < 8; i++) H[i] = bytes == 28 ? I224[i] : I256[i];
    uint64_t full = n / 64; uint8_t t[128]; memset(t, 0, 128);
    for (uint64_t i = 0; i < full; i++) fips_block(H, m + 64 * i);
    uint64_t r = n % 64; memcpy(t, m + 64 * full, r); t[r] = 0x80; int nb = r < 56 ? 1 : 2;
    for (int i = 0; i < 8; i++) t[64 * nb - 1 - i] = (uint8_t)(n * 8 >> (8 * i));
    for (int i = 0; i < nb; i++) fips_block(H, t + 64 * i);
    for (int i = 0; i < bytes; i++) out[i] = (uint8_t)(H[i / 4] >> (24 - 8 * (i % 4)));
}
#endif
