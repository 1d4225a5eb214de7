/* the C11 _Generic face of bits.h, one function per selection */
#include <stdint.h>
#include <crefl/bits.h>
unsigned c_clz_u32(unsigned v) { return clz(v); }
unsigned c_clz_s32(int v) { return clz(v); }
unsigned c_clz_u64(unsigned long long v) { return clz(v); }
unsigned c_clz_s64(long long v) { return clz(v); }
unsigned c_ctz_u32(unsigned v) { return ctz(v); }
unsigned c_ctz_s32(int v) { return ctz(v); }
unsigned c_ctz_u64(unsigned long long v) { return ctz(v); }
unsigned c_ctz_s64(long long v) { return ctz(v); }
unsigned c_popcnt_u32(unsigned v) { return popcnt(v); }
unsigned c_popcnt_s32(int v) { return popcnt(v); }
unsigned c_popcnt_u64(unsigned long long v) { return popcnt(v); }
unsigned c_popcnt_s64(long long v) { return popcnt(v); }
