#include "real.h"
//@@ prims=1 cases=12
/* by-pointer and by-value variants of each codec, run side by side on two equal buffers: same
 * status, value, cursor and bytes, for every input, valid or not */
#define TWIN_W(ent, SETUP, BYPTR, BYVAL) ENTRY(ent) { crefl_buf b, c; gbuf g, h; vf_mkbuf(&b, &g); vf_mktwin(&c, &h, &g); SETUP; \
    int r = (BYPTR), q = (BYVAL); \
    ASSERT(r == q, "[post] both variants return the same status"); \
    ASSERT(vf_pos(&b, &g) == vf_pos(&c, &h), "[post] both variants leave the same cursor"); \
    ASSERT(vf_same(&b, &g, &c, &h), "[post] both variants leave the same bytes"); }
#define TWIN_R(ent, SETUP, T, RT, SAME, BYPTR, BYVAL) ENTRY(ent) { crefl_buf b, c; gbuf g, h; vf_mkbuf(&b, &g); vf_mktwin(&c, &h, &g); SETUP; \
    T v = 0; int r = (BYPTR); RT x = (BYVAL); int64_t q = x.error; \
    ASSERT(r == q, "[post] both variants return the same status"); \
    if (r == 0) ASSERT(SAME(v, x.value), "[post] both variants return the same value"); \
    ASSERT(vf_pos(&b, &g) == vf_pos(&c, &h), "[post] both variants leave the same cursor"); \
    ASSERT(vf_same(&b, &g, &c, &h), "[post] both variants leave the same bytes"); }
#define TWIN_L(ent, SETUP, BYPTR, BYVAL) ENTRY(ent) { SETUP; ASSERT((BYPTR) == (BYVAL), "[post] both variants predict the same length"); }
static inline float f32_of(uint32_t u) { float v; memcpy(&v, &u, 4); return v; }
static inline bool eqi(uint64_t a, uint64_t b) { return a == b; }
static inline bool eqd(double a, double b) { return f64_bits(a) == f64_bits(b) || (f64_isnan(f64_bits(a)) && f64_isnan(f64_bits(b))); }
static inline bool eqf(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y || ((x & 0x7fffffff) > 0x7f800000 && (y & 0x7fffffff) > 0x7f800000); }

//@ twin_len_asn1_ber_integer_u64 props=C17 cases=1 fn=crefl_asn1_ber_integer_u64_length,crefl_asn1_ber_integer_u64_length_byval
TWIN_L(twin_len_asn1_ber_integer_u64, u64 v = (u64)IN("v"), crefl_asn1_ber_integer_u64_length(&v), crefl_asn1_ber_integer_u64_length_byval(v))
//@ twin_write_asn1_ber_integer_u64 props=C17 fn=crefl_asn1_ber_integer_u64_write,crefl_asn1_ber_integer_u64_write_byval
TWIN_W(twin_write_asn1_ber_integer_u64, u64 v = (u64)IN("v"); uint64_t len = IN("len"), crefl_asn1_ber_integer_u64_write(&b, len, &v), crefl_asn1_ber_integer_u64_write_byval(&c, len, v))
//@ twin_read_asn1_ber_integer_u64 props=C17 fn=crefl_asn1_ber_integer_u64_read,crefl_asn1_ber_integer_u64_read_byval
TWIN_R(twin_read_asn1_ber_integer_u64, uint64_t len = IN("len"), u64, u64_result, eqi, crefl_asn1_ber_integer_u64_read(&b, len, &v), crefl_asn1_ber_integer_u64_read_byval(&c, len))
//@ twin_len_asn1_ber_integer_s64 props=C17 cases=1 fn=crefl_asn1_ber_integer_s64_length,crefl_asn1_ber_integer_s64_length_byval
TWIN_L(twin_len_asn1_ber_integer_s64, s64 v = (s64)IN("v"), crefl_asn1_ber_integer_s64_length(&v), crefl_asn1_ber_integer_s64_length_byval(v))
//@ twin_write_asn1_ber_integer_s64 props=C17 fn=crefl_asn1_ber_integer_s64_write,crefl_asn1_ber_integer_s64_write_byval
TWIN_W(twin_write_asn1_ber_integer_s64, s64 v = (s64)IN("v"); uint64_t len = IN("len"), crefl_asn1_ber_integer_s64_write(&b, len, &v), crefl_asn1_ber_integer_s64_write_byval(&c, len, v))
//@ twin_read_asn1_ber_integer_s64 props=C17 fn=crefl_asn1_ber_integer_s64_read,crefl_asn1_ber_integer_s64_read_byval
TWIN_R(twin_read_asn1_ber_integer_s64, uint64_t len = IN("len"), s64, s64_result, eqi, crefl_asn1_ber_integer_s64_read(&b, len, &v), crefl_asn1_ber_integer_s64_read_byval(&c, len))
//@ twin_len_le_ber_integer_u64 props=C17 cases=1 fn=crefl_le_ber_integer_u64_length,crefl_le_ber_integer_u64_length_byval
TWIN_L(twin_len_le_ber_integer_u64, u64 v = (u64)IN("v"), crefl_le_ber_integer_u64_length(&v), crefl_le_ber_integer_u64_length_byval(v))
//@ twin_write_le_ber_integer_u64 props=C17 fn=crefl_le_ber_integer_u64_write,crefl_le_ber_integer_u64_write_byval
TWIN_W(twin_write_le_ber_integer_u64, u64 v = (u64)IN("v"); uint64_t len = IN("len"), crefl_le_ber_integer_u64_write(&b, len, &v), crefl_le_ber_integer_u64_write_byval(&c, len, v))
//@ twin_read_le_ber_integer_u64 props=C17 fn=crefl_le_ber_integer_u64_read,crefl_le_ber_integer_u64_read_byval
TWIN_R(twin_read_le_ber_integer_u64, uint64_t len = IN("len"), u64, u64_result, eqi, crefl_le_ber_integer_u64_read(&b, len, &v), crefl_le_ber_integer_u64_read_byval(&c, len))
//@ twin_len_le_ber_integer_s64 props=C17 cases=1 fn=crefl_le_ber_integer_s64_length,crefl_le_ber_integer_s64_length_byval
TWIN_L(twin_len_le_ber_integer_s64, s64 v = (s64)IN("v"), crefl_le_ber_integer_s64_length(&v), crefl_le_ber_integer_s64_length_byval(v))
//@ twin_write_le_ber_integer_s64 props=C17 fn=crefl_le_ber_integer_s64_write,crefl_le_ber_integer_s64_write_byval
TWIN_W(twin_write_le_ber_integer_s64, s64 v = (s64)IN("v"); uint64_t len = IN("len"), crefl_le_ber_integer_s64_write(&b, len, &v), crefl_le_ber_integer_s64_write_byval(&c, len, v))
//@ twin_read_le_ber_integer_s64 props=C17 fn=crefl_le_ber_integer_s64_read,crefl_le_ber_integer_s64_read_byval
TWIN_R(twin_read_le_ber_integer_s64, uint64_t len = IN("len"), s64, s64_result, eqi, crefl_le_ber_integer_s64_read(&b, len, &v), crefl_le_ber_integer_s64_read_byval(&c, len))
//@ twin_len_real props=C17 cases=1 fn=crefl_asn1_ber_real_f64_length,crefl_asn1_ber_real_f64_length_byval
TWIN_L(twin_len_real, double v = f64_of(IN("u")), crefl_asn1_ber_real_f64_length(&v), crefl_asn1_ber_real_f64_length_byval(v))
//@ twin_write_real props=C17 fn=crefl_asn1_ber_real_f64_write,crefl_asn1_ber_real_f64_write_byval
TWIN_W(twin_write_real, double v = f64_of(IN("u")); uint64_t len = IN("len"), crefl_asn1_ber_real_f64_write(&b, len, &v), crefl_asn1_ber_real_f64_write_byval(&c, len, v))
//@ twin_read_real props=C17 opts=--sat-solver,cadical fn=crefl_asn1_ber_real_f64_read,crefl_asn1_ber_real_f64_read_byval
TWIN_R(twin_read_real, uint64_t len = IN("len"), double, f64_result, eqd, crefl_asn1_ber_real_f64_read(&b, len, &v), crefl_asn1_ber_real_f64_read_byval(&c, len))
//@ twin_write_vf_f64 props=C17 defs=WIN=13 cases=14 fn=crefl_vf_f64_write,crefl_vf_f64_write_byval
TWIN_W(twin_write_vf_f64, double v = f64_of(IN("u")), crefl_vf_f64_write(&b, &v), crefl_vf_f64_write_byval(&c, v))
//@ twin_read_vf_f64 props=C17 defs=WIN=13 cases=14 fn=crefl_vf_f64_read,crefl_vf_f64_read_byval
TWIN_R(twin_read_vf_f64, , double, f64_result, eqd, crefl_vf_f64_read(&b, &v), crefl_vf_f64_read_byval(&c))
//@ twin_write_vf_f32 props=C17 defs=WIN=13 cases=14 fn=crefl_vf_f32_write,crefl_vf_f32_write_byval
TWIN_W(twin_write_vf_f32, float v = f32_of((uint32_t)IN("u")), crefl_vf_f32_write(&b, &v), crefl_vf_f32_write_byval(&c, v))
//@ twin_read_vf_f32 props=C17 defs=WIN=13 cases=14 fn=crefl_vf_f32_read,crefl_vf_f32_read_byval
TWIN_R(twin_read_vf_f32, , float, f32_result, eqf, crefl_vf_f32_read(&b, &v), crefl_vf_f32_read_byval(&c))
//@ twin_write_leb_u64 props=C17 fn=crefl_leb_u64_write,crefl_leb_u64_write_byval
TWIN_W(twin_write_leb_u64, u64 v = IN("v"), crefl_leb_u64_write(&b, &v), crefl_leb_u64_write_byval(&c, v))
//@ twin_read_leb_u64 props=C17 fn=crefl_leb_u64_read,crefl_leb_u64_read_byval
TWIN_R(twin_read_leb_u64, , u64, u64_result, eqi, crefl_leb_u64_read(&b, &v), crefl_leb_u64_read_byval(&c))
//@ twin_write_vlu_u64 props=C17 fn=crefl_vlu_u64_write,crefl_vlu_u64_write_byval
TWIN_W(twin_write_vlu_u64, u64 v = IN("v"), crefl_vlu_u64_write(&b, &v), crefl_vlu_u64_write_byval(&c, v))
//@ twin_read_vlu_u64 props=C17 fn=crefl_vlu_u64_read,crefl_vlu_u64_read_byval
TWIN_R(twin_read_vlu_u64, , u64, u64_result, eqi, crefl_vlu_u64_read(&b, &v), crefl_vlu_u64_read_byval(&c))
