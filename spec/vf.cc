#include "real.h"
//@@ prims=1 defs=WIN=13 cases=14
/* compressed floats: every value, every buffer; end to end on the real code */
static inline uint32_t f32_bits(float v) { uint32_t u; memcpy(&u, &v, 4); return u; }
static inline float f32_of(uint32_t u) { float v; memcpy(&v, &u, 4); return v; }
static inline bool f32_isnan(uint32_t u) { return (u & 0x7fffffffu) > 0x7f800000u; }
static inline bool same64(uint64_t a, uint64_t b) { return f64_isnan(a) ? f64_isnan(b) && a >> 63 == b >> 63 : a == b; }
static inline bool same32(uint32_t a, uint32_t b) { return f32_isnan(a) ? f32_isnan(b) && a >> 31 == b >> 31 : a == b; }
/* write then read; wcall/rcall are the real functions */
#define RT(ent, BT, BITS, OF, SAME, MAXN, wcall, rdecl, rcall, rval) ENTRY(ent) { crefl_buf b; gbuf g; vf_mkbuf(&b, &g); \
    BT u = (BT)IN("u"); auto v = OF(u); int r = (wcall); \
    ASSERT(vf_inside(&b, &g), "[post] cursor stays in the buffer"); \
    if (r != 0) { ASSERT(r < 0, "[post] failure is reported as a negative status"); \
        ASSERT(!vf_fits(&g, 0, MAXN), "[post] a buffer with room for the longest form is never refused"); return; } \
    uint64_t n = vf_pos(&b, &g); ASSERT(n >= 1 && n <= MAXN, "[post] encoded in at most the stated number of octets"); \
    ASSERT(vf_frame(&b, &g, n), "[frame] write changes only the octets of the object"); \
    COVER(n >= MAXN - 2, "one of the longest forms"); \
    vf_rewind(&b, &g); rdecl; int q = (int)(rcall); \
    ASSERT(q == 0 && vf_pos(&b, &g) == n, "[lemma] what was written is accepted and consumed"); \
    ASSERT(SAME(u, BITS(rval)), "[lemma] round trip, bit for bit"); }
/* arbitrary bytes: safe, inside the buffer, nothing changed */
#define SAFE(ent, rdecl, rcall) ENTRY(ent) { crefl_buf b; gbuf g; vf_mkbuf(&b, &g); \
    rdecl; int q = (int)(rcall); ASSERT(q <= 0, "[post] status is zero or negative"); \
    ASSERT(vf_inside(&b, &g), "[post] cursor stays in the buffer"); \
    if (g.vis == 0) ASSERT(q < 0, "[post] an empty buffer is refused"); \
    ASSERT(vf_frame(&b, &g, 0), "[frame] reading changes no byte of the buffer"); }

//@ roundtrip_vf_f64_wp_rp props=C07,C16 fn=crefl_vf_f64_write,crefl_vf_f64_read
RT(roundtrip_vf_f64_wp_rp, uint64_t, f64_bits, f64_of, same64, 11, crefl_vf_f64_write(&b, &v), double x = 1, crefl_vf_f64_read(&b, &x), x)
//@ roundtrip_vf_f64_wp_rv props=C07 fn=crefl_vf_f64_write,crefl_vf_f64_read_byval
RT(roundtrip_vf_f64_wp_rv, uint64_t, f64_bits, f64_of, same64, 11, crefl_vf_f64_write(&b, &v), f64_result x, (x = crefl_vf_f64_read_byval(&b)).error, x.value)
//@ roundtrip_vf_f64_wv_rp props=C07,C16 fn=crefl_vf_f64_write_byval,crefl_vf_f64_read
RT(roundtrip_vf_f64_wv_rp, uint64_t, f64_bits, f64_of, same64, 11, crefl_vf_f64_write_byval(&b, v), double x = 1, crefl_vf_f64_read(&b, &x), x)
//@ roundtrip_vf_f64_wv_rv props=C07 fn=crefl_vf_f64_write_byval,crefl_vf_f64_read_byval
RT(roundtrip_vf_f64_wv_rv, uint64_t, f64_bits, f64_of, same64, 11, crefl_vf_f64_write_byval(&b, v), f64_result x, (x = crefl_vf_f64_read_byval(&b)).error, x.value)
//@ safe_vf_f64_read props=C15 fn=crefl_vf_f64_read
SAFE(safe_vf_f64_read, double x = 1, crefl_vf_f64_read(&b, &x))
//@ safe_vf_f64_read_byval props=C15 fn=crefl_vf_f64_read_byval
SAFE(safe_vf_f64_read_byval, f64_result x, (x = crefl_vf_f64_read_byval(&b)).error)
//@ roundtrip_vf_f32_wp_rp props=C08,C16 fn=crefl_vf_f32_write,crefl_vf_f32_read
RT(roundtrip_vf_f32_wp_rp, uint32_t, f32_bits, f32_of, same32, 7, crefl_vf_f32_write(&b, &v), float x = 1, crefl_vf_f32_read(&b, &x), x)
//@ roundtrip_vf_f32_wp_rv props=C08 fn=crefl_vf_f32_write,crefl_vf_f32_read_byval
RT(roundtrip_vf_f32_wp_rv, uint32_t, f32_bits, f32_of, same32, 7, crefl_vf_f32_write(&b, &v), f32_result x, (x = crefl_vf_f32_read_byval(&b)).error, x.value)
//@ roundtrip_vf_f32_wv_rp props=C08,C16 fn=crefl_vf_f32_write_byval,crefl_vf_f32_read
RT(roundtrip_vf_f32_wv_rp, uint32_t, f32_bits, f32_of, same32, 7, crefl_vf_f32_write_byval(&b, v), float x = 1, crefl_vf_f32_read(&b, &x), x)
//@ roundtrip_vf_f32_wv_rv props=C08 fn=crefl_vf_f32_write_byval,crefl_vf_f32_read_byval
RT(roundtrip_vf_f32_wv_rv, uint32_t, f32_bits, f32_of, same32, 7, crefl_vf_f32_write_byval(&b, v), f32_result x, (x = crefl_vf_f32_read_byval(&b)).error, x.value)
//@ safe_vf_f32_read props=C15 fn=crefl_vf_f32_read
SAFE(safe_vf_f32_read, float x = 1, crefl_vf_f32_read(&b, &x))
//@ safe_vf_f32_read_byval props=C15 fn=crefl_vf_f32_read_byval
SAFE(safe_vf_f32_read_byval, f32_result x, (x = crefl_vf_f32_read_byval(&b)).error)
