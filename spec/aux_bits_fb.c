/* the portable fallbacks of bits.h and endian.h (no compiler builtins, no <byteswap.h>) */
#include <stdint.h>
#include <limits.h>
#undef __GNUC__
#include <crefl/bits.h>
#undef __linux__
#undef __GLIBC__
#define bswap16 fb_bswap16_
#define bswap32 fb_bswap32_
#define bswap64 fb_bswap64_
#include <crefl/endian.h>
unsigned fb_clz_u32(unsigned v) { return clz_u32(v); }
unsigned fb_clz_u64(unsigned long long v) { return clz_u64(v); }
unsigned fb_ctz_u32(unsigned v) { return ctz_u32(v); }
unsigned fb_ctz_u64(unsigned long long v) { return ctz_u64(v); }
unsigned fb_popcnt_u32(unsigned v) { return popcnt_u32(v); }
unsigned fb_popcnt_u64(unsigned long long v) { return popcnt_u64(v); }
#define G(n) uint##n##_t fb_be##n(uint##n##_t x) { return be##n(x); } uint##n##_t fb_le##n(uint##n##_t x) { return le##n(x); } \
             uint##n##_t fb_bswap##n(uint##n##_t x) { return bswap##n(x); } \
             uint##n##_t fb_htobe##n(uint##n##_t x) { return htobe##n(x); } uint##n##_t fb_htole##n(uint##n##_t x) { return htole##n(x); } \
             uint##n##_t fb_be##n##toh(uint##n##_t x) { return be##n##toh(x); } uint##n##_t fb_le##n##toh(uint##n##_t x) { return le##n##toh(x); }
G(16) G(32) G(64)
#undef G
/* the C11 _Generic selections (they need the host conversions as functions, which glibc makes macros) */
#define G(T, n) T c_htobe_##n(T v) { return htobe(v); } T c_betoh_##n(T v) { return betoh(v); } \
                T c_htole_##n(T v) { return htole(v); } T c_letoh_##n(T v) { return letoh(v); }
G(short, s16) G(unsigned short, u16) G(int, s32) G(unsigned int, u32)
G(long, sl) G(unsigned long, ul) G(long long, s64) G(unsigned long long, u64)
