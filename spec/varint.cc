#include "codec.h"
//@@ prims=1 cases=12
/* LEB128 and VLU */

#define WR(ent, call, ENC) ENTRY(ent) { crefl_buf b; gbuf g; vf_mkbuf(&b, &g); \
    u64 v = IN("v"); enc e; ENC(&e, v); int r = (call); post_write(&b, &g, r, &e); }
#define RDP(ent, call, DEC) ENTRY(ent) { crefl_buf b; gbuf g; vf_mkbuf(&b, &g); \
    dec x; DEC(&x, g.w, g.avail()); u64 v = IN("old"); int r = (call); post_read(&b, &g, r, v, &x); }
#define RDV(ent, call, DEC) ENTRY(ent) { crefl_buf b; gbuf g; vf_mkbuf(&b, &g); \
    dec x; DEC(&x, g.w, g.avail()); u64_result q = (call); \
    ASSERT(q.error == (int)q.error, "[post] status in int range"); post_read(&b, &g, (int)q.error, q.value, &x); }
#define RT(ent, wcall, rcall) ENTRY(ent) { crefl_buf b; gbuf g; vf_mkbuf(&b, &g); \
    u64 v = IN("v"); int r = (wcall); \
    if (v < ((u64)1 << 56) && vf_fits(&g, 0, 8)) ASSERT(r == 0, "[lemma] eight octets of room are enough below 2^56"); \
    if (r == 0) { COVER(v >> 55 != 0, "eight octets"); uint64_t n = vf_pos(&b, &g); \
        vf_rewind(&b, &g); u64 x = 0; int q = (rcall); \
        ASSERT(q == 0 && x == v && vf_pos(&b, &g) == n, "[lemma] round trip"); } }

//@ enforce_leb_write props=C09,C16 fn=crefl_leb_u64_write
WR(enforce_leb_write, crefl_leb_u64_write(&b, &v), enc_leb)
//@ enforce_leb_write_byval props=C09,C16 fn=crefl_leb_u64_write_byval
WR(enforce_leb_write_byval, crefl_leb_u64_write_byval(&b, v), enc_leb)
//@ enforce_leb_read props=C09,C15 fn=crefl_leb_u64_read
RDP(enforce_leb_read, crefl_leb_u64_read(&b, &v), dec_leb)
//@ enforce_leb_read_byval props=C09,C15 fn=crefl_leb_u64_read_byval
RDV(enforce_leb_read_byval, crefl_leb_u64_read_byval(&b), dec_leb)
//@ roundtrip_leb props=C09 fn=crefl_leb_u64_write,crefl_leb_u64_read
RT(roundtrip_leb, crefl_leb_u64_write(&b, &v), crefl_leb_u64_read(&b, &x))
//@ enforce_vlu_write props=C10,C16 fn=crefl_vlu_u64_write
WR(enforce_vlu_write, crefl_vlu_u64_write(&b, &v), enc_vlu)
//@ enforce_vlu_write_byval props=C10,C16 fn=crefl_vlu_u64_write_byval
WR(enforce_vlu_write_byval, crefl_vlu_u64_write_byval(&b, v), enc_vlu)
//@ enforce_vlu_read props=C10,C15 fn=crefl_vlu_u64_read
RDP(enforce_vlu_read, crefl_vlu_u64_read(&b, &v), dec_vlu)
//@ enforce_vlu_read_byval props=C10,C15 fn=crefl_vlu_u64_read_byval
RDV(enforce_vlu_read_byval, crefl_vlu_u64_read_byval(&b), dec_vlu)
//@ roundtrip_vlu props=C10 fn=crefl_vlu_u64_write,crefl_vlu_u64_read
RT(roundtrip_vlu, crefl_vlu_u64_write(&b, &v), crefl_vlu_u64_read(&b, &x))
