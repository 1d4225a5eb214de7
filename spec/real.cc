#include "real.h"
//@@ prims=1 cases=12 opts=--sat-solver,cadical

//@ enforce_real_length cases=1 props=C05,C06 fn=crefl_asn1_ber_real_f64_length
ENTRY(enforce_real_length)
{
    uint64_t u = IN("u"); double v = f64_of(u); enc e; enc_real(&e, u);
    ASSERT(crefl_asn1_ber_real_f64_length(&v) == e.n, "[post] predicted length is the number of content octets");
}
//@ enforce_real_length_byval cases=1 props=C05,C06 fn=crefl_asn1_ber_real_f64_length_byval
ENTRY(enforce_real_length_byval)
{
    uint64_t u = IN("u"); enc e; enc_real(&e, u);
    ASSERT(crefl_asn1_ber_real_f64_length_byval(f64_of(u)) == e.n, "[post] predicted length is the number of content octets");
}
//@ enforce_real_write props=C05,C06,C16 fn=crefl_asn1_ber_real_f64_write
ENTRY(enforce_real_write)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g);
    uint64_t u = IN("u"); double v = f64_of(u); enc e; enc_real(&e, u);
    int r = crefl_asn1_ber_real_f64_write(&b, e.n, &v);
    post_write(&b, &g, r, &e);
}
//@ enforce_real_write_byval props=C05,C06,C16 fn=crefl_asn1_ber_real_f64_write_byval
ENTRY(enforce_real_write_byval)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g);
    uint64_t u = IN("u"); enc e; enc_real(&e, u);
    int r = crefl_asn1_ber_real_f64_write_byval(&b, e.n, f64_of(u));
    post_write(&b, &g, r, &e);
}
//@ enforce_real_read props=C05,C06,C15 fn=crefl_asn1_ber_real_f64_read
ENTRY(enforce_real_read)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g);
    uint64_t len = IN("len"); decr x; dec_real(&x, g.w, g.avail(), len); double v = 0;
    int r = crefl_asn1_ber_real_f64_read(&b, len, &v);
    post_read_real(&b, &g, r, v, &x);
}
//@ enforce_real_read_byval props=C05,C06,C15 fn=crefl_asn1_ber_real_f64_read_byval
ENTRY(enforce_real_read_byval)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g);
    uint64_t len = IN("len"); decr x; dec_real(&x, g.w, g.avail(), len);
    f64_result q = crefl_asn1_ber_real_f64_read_byval(&b, len);
    ASSERT(q.error == (int)q.error, "[post] status in int range");
    post_read_real(&b, &g, (int)q.error, q.value, &x);
}
/* round trip through the contracts: the specified encoding of every double decodes to it */
//@ lemma_real_roundtrip cases=1 props=C05
ENTRY(lemma_real_roundtrip)
{
    uint64_t u = IN("u"); enc e; enc_real(&e, u); decr x; dec_real(&x, e.b, e.n, e.n);
    ASSERT(x.d.must_ok && x.d.n == e.n && !x.anyval, "[lemma] the specified encoding is accepted and consumed");
    if (f64_isnan(u)) ASSERT(f64_isnan(x.d.v), "[lemma] NaN round trip");
    else if (u == 0) ASSERT(x.anysign, "[lemma] zero round trip");
    else ASSERT(x.d.v == u, "[lemma] every other double round trips bit for bit");
}
/* end to end on the real code */
//@ roundtrip_real props=C05 fn=crefl_asn1_ber_real_f64_length,crefl_asn1_ber_real_f64_write,crefl_asn1_ber_real_f64_read
ENTRY(roundtrip_real)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g);
    uint64_t u = IN("u"); double v = f64_of(u);
    uint64_t len = crefl_asn1_ber_real_f64_length(&v);
    if (crefl_asn1_ber_real_f64_write(&b, len, &v) == 0) {
        COVER(len == 10, "two exponent and seven mantissa octets");
        ASSERT(vf_pos(&b, &g) == len, "[lemma] exactly the predicted length is written");
        vf_rewind(&b, &g); double x = 1; int q = crefl_asn1_ber_real_f64_read(&b, len, &x);
        ASSERT(q == 0 && vf_pos(&b, &g) == len, "[lemma] the written contents are accepted and consumed");
        ASSERT(f64_isnan(u) ? f64_isnan(f64_bits(x)) : f64_bits(x) == u, "[lemma] REAL round trip, bit for bit");
    }
}
