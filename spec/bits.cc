#include "vf.h"
#include <crefl/bits.h>
#include <crefl/endian.h>
//@@ src=@aux_bits_c.c,@aux_bits_fb.c unwind=70
/* definitions, bit by bit */
static unsigned d_clz(uint64_t v, int w) { unsigned n = 0; for (int i = w - 1; i >= 0; i--) { if (v >> i & 1) return n; n++; } return n; }
static unsigned d_ctz(uint64_t v, int w) { unsigned n = 0; for (int i = 0; i < w; i++) { if (v >> i & 1) return n; n++; } return n; }
/* population count by halves: a bit counts itself, a word what its halves count */
static unsigned d_pop(uint64_t v, int w) { return w == 1 ? (unsigned)(v & 1) : d_pop(v, w / 2) + d_pop(v >> (w / 2), w / 2); }
static uint64_t d_rev(uint64_t v, int n) { uint64_t r = 0; for (int i = 0; i < n; i++) r |= (v >> (8 * i) & 0xff) << (8 * (n - 1 - i)); return r; }
extern "C" {
#define DECL3(n) unsigned n##_u32(unsigned); unsigned n##_u64(unsigned long long); unsigned n##_s32(int); unsigned n##_s64(long long);
DECL3(c_clz) DECL3(c_ctz) DECL3(c_popcnt) DECL3(fb_clz) DECL3(fb_ctz) DECL3(fb_popcnt)
#define DECLG(T, n) T c_htobe_##n(T); T c_betoh_##n(T); T c_htole_##n(T); T c_letoh_##n(T);
DECLG(short, s16) DECLG(unsigned short, u16) DECLG(int, s32) DECLG(unsigned int, u32)
DECLG(long, sl) DECLG(unsigned long, ul) DECLG(long long, s64) DECLG(unsigned long long, u64)
#define DECLF(n) uint##n##_t fb_be##n(uint##n##_t); uint##n##_t fb_le##n(uint##n##_t); uint##n##_t fb_bswap##n(uint##n##_t); \
    uint##n##_t fb_htobe##n(uint##n##_t); uint##n##_t fb_htole##n(uint##n##_t); uint##n##_t fb_be##n##toh(uint##n##_t); uint##n##_t fb_le##n##toh(uint##n##_t);
DECLF(16) DECLF(32) DECLF(64)
}
#define BITSFN(ent, D, fn) ENTRY(ent) { uint64_t v = IN("v"); uint32_t w = (uint32_t)v; \
    unsigned a = D(v, 64), b = D(w, 32); \
    ASSERT(fn##_u64(v) == a, "[post] the count of a 64-bit word is its definition"); \
    ASSERT(fn##_u32(w) == b, "[post] the count of a 32-bit word is its definition"); \
    ASSERT(fn<signed int>((int)w) == b && fn<unsigned int>(w) == b, "[post] C++ selection for int"); \
    ASSERT(fn<signed long>((long)v) == a && fn<unsigned long>(v) == a, "[post] C++ selection for long"); \
    ASSERT(fn<signed long long>((long long)v) == a && fn<unsigned long long>(v) == a, "[post] C++ selection for long long"); \
    ASSERT(c_##fn##_u32(w) == b && c_##fn##_s32((int)w) == b, "[post] C selection for int"); \
    ASSERT(c_##fn##_u64(v) == a && c_##fn##_s64((long long)v) == a, "[post] C selection for long long"); \
    ASSERT(fb_##fn##_u64(v) == a && fb_##fn##_u32(w) == b, "[post] the portable fallback computes the same count"); }
//@ bits_clz props=C19 fn=clz_u32,clz_u64
BITSFN(bits_clz, d_clz, clz)
//@ bits_ctz props=C19 fn=ctz_u32,ctz_u64
BITSFN(bits_ctz, d_ctz, ctz)
//@ bits_popcnt opts=--sat-solver,cadical props=C19 fn=popcnt_u32,popcnt_u64
BITSFN(bits_popcnt, d_pop, popcnt)

static bool little(void) { return true; }        /* x86-64: the host order of this proof */
#define SWAP(n) { uint##n##_t x = (uint##n##_t)v, s = (uint##n##_t)d_rev(x, n / 8); \
    ASSERT(bswap##n(x) == s, "[post] bswap reverses the bytes"); \
    ASSERT(be##n(x) == s && le##n(x) == x, "[post] be reverses, le keeps (little-endian host)"); \
    ASSERT((uint##n##_t)htobe##n(x) == s && (uint##n##_t)be##n##toh(x) == s && (uint##n##_t)htole##n(x) == x && (uint##n##_t)le##n##toh(x) == x, "[post] host conversions"); \
    ASSERT(be##n(be##n(x)) == x && le##n(le##n(x)) == x && bswap##n(bswap##n(x)) == x, "[post] own inverse"); \
    ASSERT(fb_be##n(x) == s && fb_le##n(x) == x && fb_bswap##n(x) == s, "[post] the portable fallback computes the same"); \
    ASSERT(fb_htobe##n(x) == s && fb_be##n##toh(x) == s && fb_htole##n(x) == x && fb_le##n##toh(x) == x, "[post] the portable host conversions compute the same"); }
//@ endian_words props=C19,C18 fn=be16,be32,be64,le16,le32,le64,bswap16,bswap32,bswap64
ENTRY(endian_words)
{
    uint64_t v = IN("v");
    ASSERT(le8((uint8_t)v) == (uint8_t)v && be8((uint8_t)v) == (uint8_t)v, "[post] one byte stays");
    SWAP(16) SWAP(32) SWAP(64)
}
#define GEN(T, n, N) { T x = (T)v, s = (T)d_rev((uint64_t)x, N); \
    ASSERT(htobe<T>(x) == s && betoh<T>(x) == s && htole<T>(x) == x && letoh<T>(x) == x, "[post] C++ selection by type"); \
    ASSERT(c_htobe_##n(x) == s && c_betoh_##n(x) == s && c_htole_##n(x) == x && c_letoh_##n(x) == x, "[post] C selection by type"); }
//@ endian_generic props=C19 fn=htobe,betoh,htole,letoh
ENTRY(endian_generic)
{
    uint64_t v = IN("v");
    GEN(short, s16, 2) GEN(unsigned short, u16, 2) GEN(int, s32, 4) GEN(unsigned int, u32, 4)
    GEN(long, sl, 8) GEN(unsigned long, ul, 8) GEN(long long, s64, 8) GEN(unsigned long long, u64, 8)
}
