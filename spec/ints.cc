#include "codec.h"
//@@ prims=1 cases=12
/* integer contents: be = X.690 8.3, le = little-endian variant; u/s; by pointer and by value */

#define LEN(ent, T, call) ENTRY(ent) { T v = (T)IN("v"); \
    ASSERT((call) == SPEC(v), "[post] predicted length is the minimal number of octets"); }
#define WR(ent, T, call, LE) ENTRY(ent) { crefl_buf b; gbuf g; vf_mkbuf(&b, &g); \
    T v = (T)IN("v"); uint64_t len = IN("len"); enc e; enc_int(&e, (uint64_t)v, len, LE); \
    int r = (call); post_write(&b, &g, r, &e); }
#define RDP(ent, T, call, LE, SG) ENTRY(ent) { crefl_buf b; gbuf g; vf_mkbuf(&b, &g); \
    uint64_t len = IN("len"); dec x; dec_int(&x, g.w, g.avail(), len, LE, SG); T v = 0; \
    int r = (call); post_read(&b, &g, r, (uint64_t)v, &x); }
#define RDV(ent, T, call, LE, SG) ENTRY(ent) { crefl_buf b; gbuf g; vf_mkbuf(&b, &g); \
    uint64_t len = IN("len"); dec x; dec_int(&x, g.w, g.avail(), len, LE, SG); \
    auto q = (call); ASSERT(q.error == (int)q.error, "[post] status in int range"); \
    post_read(&b, &g, (int)q.error, (uint64_t)q.value, &x); }
#define RT(ent, T, lcall, wcall, rcall) ENTRY(ent) { crefl_buf b; gbuf g; vf_mkbuf(&b, &g); \
    T v = (T)IN("v"); uint64_t len = (lcall); int r = (wcall); \
    ASSERT((r == 0) == vf_fits(&g, 0, len), "[lemma] write of the predicted length succeeds exactly when it fits"); \
    if (r == 0) { COVER(len == 8, "eight octets"); ASSERT(vf_pos(&b, &g) == len, "[lemma] exactly the predicted length is written"); \
        vf_rewind(&b, &g); T x = 0; int q = (rcall); \
        ASSERT(q == 0 && x == v && vf_pos(&b, &g) == len, "[lemma] round trip"); } }
#define SPEC octets8

#undef SPEC
#define SPEC octets8
//@ enforce_be_u64_length props=C03 fn=crefl_asn1_ber_integer_u64_length cases=1
LEN(enforce_be_u64_length, u64, crefl_asn1_ber_integer_u64_length(&v))
//@ enforce_be_u64_length_byval props=C03 fn=crefl_asn1_ber_integer_u64_length_byval cases=1
LEN(enforce_be_u64_length_byval, u64, crefl_asn1_ber_integer_u64_length_byval(v))
//@ enforce_be_u64_write props=C03,C16 fn=crefl_asn1_ber_integer_u64_write
WR(enforce_be_u64_write, u64, crefl_asn1_ber_integer_u64_write(&b, len, &v), false)
//@ enforce_be_u64_write_byval props=C03,C16 fn=crefl_asn1_ber_integer_u64_write_byval
WR(enforce_be_u64_write_byval, u64, crefl_asn1_ber_integer_u64_write_byval(&b, len, v), false)
//@ enforce_be_u64_read props=C03,C15 fn=crefl_asn1_ber_integer_u64_read
RDP(enforce_be_u64_read, u64, crefl_asn1_ber_integer_u64_read(&b, len, &v), false, false)
//@ enforce_be_u64_read_byval props=C03,C15 fn=crefl_asn1_ber_integer_u64_read_byval
RDV(enforce_be_u64_read_byval, u64, crefl_asn1_ber_integer_u64_read_byval(&b, len), false, false)
//@ roundtrip_be_u64 props=C03 fn=crefl_asn1_ber_integer_u64_length,crefl_asn1_ber_integer_u64_write,crefl_asn1_ber_integer_u64_read
RT(roundtrip_be_u64, u64, crefl_asn1_ber_integer_u64_length(&v), crefl_asn1_ber_integer_u64_write(&b, len, &v), crefl_asn1_ber_integer_u64_read(&b, len, &x))
#undef SPEC
#define SPEC octets_s
//@ enforce_be_s64_length props=C03 fn=crefl_asn1_ber_integer_s64_length cases=1
LEN(enforce_be_s64_length, s64, crefl_asn1_ber_integer_s64_length(&v))
//@ enforce_be_s64_length_byval props=C03 fn=crefl_asn1_ber_integer_s64_length_byval cases=1
LEN(enforce_be_s64_length_byval, s64, crefl_asn1_ber_integer_s64_length_byval(v))
//@ enforce_be_s64_write props=C03,C16 fn=crefl_asn1_ber_integer_s64_write
WR(enforce_be_s64_write, s64, crefl_asn1_ber_integer_s64_write(&b, len, &v), false)
//@ enforce_be_s64_write_byval props=C03,C16 fn=crefl_asn1_ber_integer_s64_write_byval
WR(enforce_be_s64_write_byval, s64, crefl_asn1_ber_integer_s64_write_byval(&b, len, v), false)
//@ enforce_be_s64_read props=C03,C15 fn=crefl_asn1_ber_integer_s64_read
RDP(enforce_be_s64_read, s64, crefl_asn1_ber_integer_s64_read(&b, len, &v), false, true)
//@ enforce_be_s64_read_byval props=C03,C15 fn=crefl_asn1_ber_integer_s64_read_byval
RDV(enforce_be_s64_read_byval, s64, crefl_asn1_ber_integer_s64_read_byval(&b, len), false, true)
//@ roundtrip_be_s64 props=C03 fn=crefl_asn1_ber_integer_s64_length,crefl_asn1_ber_integer_s64_write,crefl_asn1_ber_integer_s64_read
RT(roundtrip_be_s64, s64, crefl_asn1_ber_integer_s64_length(&v), crefl_asn1_ber_integer_s64_write(&b, len, &v), crefl_asn1_ber_integer_s64_read(&b, len, &x))
#undef SPEC
#define SPEC octets8
//@ enforce_le_u64_length props=C04 fn=crefl_le_ber_integer_u64_length cases=1
LEN(enforce_le_u64_length, u64, crefl_le_ber_integer_u64_length(&v))
//@ enforce_le_u64_length_byval props=C04 fn=crefl_le_ber_integer_u64_length_byval cases=1
LEN(enforce_le_u64_length_byval, u64, crefl_le_ber_integer_u64_length_byval(v))
//@ enforce_le_u64_write props=C04,C16 fn=crefl_le_ber_integer_u64_write
WR(enforce_le_u64_write, u64, crefl_le_ber_integer_u64_write(&b, len, &v), true)
//@ enforce_le_u64_write_byval props=C04,C16 fn=crefl_le_ber_integer_u64_write_byval
WR(enforce_le_u64_write_byval, u64, crefl_le_ber_integer_u64_write_byval(&b, len, v), true)
//@ enforce_le_u64_read props=C04,C15 fn=crefl_le_ber_integer_u64_read
RDP(enforce_le_u64_read, u64, crefl_le_ber_integer_u64_read(&b, len, &v), true, false)
//@ enforce_le_u64_read_byval props=C04,C15 fn=crefl_le_ber_integer_u64_read_byval
RDV(enforce_le_u64_read_byval, u64, crefl_le_ber_integer_u64_read_byval(&b, len), true, false)
//@ roundtrip_le_u64 props=C04 fn=crefl_le_ber_integer_u64_length,crefl_le_ber_integer_u64_write,crefl_le_ber_integer_u64_read
RT(roundtrip_le_u64, u64, crefl_le_ber_integer_u64_length(&v), crefl_le_ber_integer_u64_write(&b, len, &v), crefl_le_ber_integer_u64_read(&b, len, &x))
#undef SPEC
#define SPEC octets_s
//@ enforce_le_s64_length props=C04 fn=crefl_le_ber_integer_s64_length cases=1
LEN(enforce_le_s64_length, s64, crefl_le_ber_integer_s64_length(&v))
//@ enforce_le_s64_length_byval props=C04 fn=crefl_le_ber_integer_s64_length_byval cases=1
LEN(enforce_le_s64_length_byval, s64, crefl_le_ber_integer_s64_length_byval(v))
//@ enforce_le_s64_write props=C04,C16 fn=crefl_le_ber_integer_s64_write
WR(enforce_le_s64_write, s64, crefl_le_ber_integer_s64_write(&b, len, &v), true)
//@ enforce_le_s64_write_byval props=C04,C16 fn=crefl_le_ber_integer_s64_write_byval
WR(enforce_le_s64_write_byval, s64, crefl_le_ber_integer_s64_write_byval(&b, len, v), true)
//@ enforce_le_s64_read props=C04,C15 fn=crefl_le_ber_integer_s64_read
RDP(enforce_le_s64_read, s64, crefl_le_ber_integer_s64_read(&b, len, &v), true, true)
//@ enforce_le_s64_read_byval props=C04,C15 fn=crefl_le_ber_integer_s64_read_byval
RDV(enforce_le_s64_read_byval, s64, crefl_le_ber_integer_s64_read_byval(&b, len), true, true)
//@ roundtrip_le_s64 props=C04 fn=crefl_le_ber_integer_s64_length,crefl_le_ber_integer_s64_write,crefl_le_ber_integer_s64_read
RT(roundtrip_le_s64, s64, crefl_le_ber_integer_s64_length(&v), crefl_le_ber_integer_s64_write(&b, len, &v), crefl_le_ber_integer_s64_read(&b, len, &x))
