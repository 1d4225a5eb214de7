#include "codec.h"
//@@ prims=1 cases=12
static asn1_id mkid(sid s) { asn1_id i = { 0 }; i._identifier = s.tag; i._class = s.cls; i._constructed = s.cons; return i; }

//@ enforce_tag_length cases=1 props=C01,C11 fn=crefl_asn1_ber_tag_length
ENTRY(enforce_tag_length)
{
    uint64_t v = IN("v"); ASSUME(v < (uint64_t)1 << 56);
    ASSERT(crefl_asn1_ber_tag_length(v) == digits7(v), "[post] tag length is the number of base-128 digits");
}
//@ enforce_tag_write props=C01,C11,C16 fn=crefl_asn1_ber_tag_write
ENTRY(enforce_tag_write)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g);
    uint64_t v = IN("v"); enc e; enc_tag(&e, v);
    post_write(&b, &g, crefl_asn1_ber_tag_write(&b, v), &e);
}
//@ enforce_tag_read props=C01,C11,C15 fn=crefl_asn1_ber_tag_read
ENTRY(enforce_tag_read)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g);
    dec x; dec_tag(&x, g.w, g.avail());
    u64 v = IN("old"); int r = crefl_asn1_ber_tag_read(&b, &v);
    post_read(&b, &g, r, v, &x);
}
//@ enforce_ident_length cases=1 props=C01 fn=crefl_asn1_ber_ident_length
ENTRY(enforce_ident_length)
{
    sid s = unpack_id(IN("id")); enc e; enc_ident(&e, s);
    ASSERT(crefl_asn1_ber_ident_length(mkid(s)) == e.n, "[post] identifier length is the number of identifier octets");
}
//@ enforce_ident_write props=C01,C14,C16 fn=crefl_asn1_ber_ident_write
ENTRY(enforce_ident_write)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g);
    sid s = unpack_id(IN("id")); enc e; enc_ident(&e, s);
    post_write(&b, &g, crefl_asn1_ber_ident_write(&b, mkid(s)), &e);
}
//@ enforce_ident_read props=C01,C14,C15 fn=crefl_asn1_ber_ident_read
ENTRY(enforce_ident_read)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g);
    dec x; dec_ident(&x, g.w, g.avail());
    asn1_id id; memset(&id, 0, sizeof(id));
    int r = crefl_asn1_ber_ident_read(&b, &id);
    post_read(&b, &g, r, pack_id(id), &x);
}
//@ roundtrip_ident props=C01
ENTRY(roundtrip_ident)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g);
    sid s = unpack_id(IN("id"));
    if (crefl_asn1_ber_ident_write(&b, mkid(s)) == 0) {
        COVER(s.tag > 0x1fffff, "long tag written");
        uint64_t end = vf_pos(&b, &g); vf_rewind(&b, &g);
        asn1_id id; memset(&id, 0, sizeof(id));
        ASSERT(crefl_asn1_ber_ident_read(&b, &id) == 0, "[lemma] what was written is accepted");
        ASSERT(pack_id(id) == pack_id(s) && vf_pos(&b, &g) == end, "[lemma] identifier round trip");
    }
}
//@ enforce_length_length cases=1 props=C02,C14 fn=crefl_asn1_ber_length_length
ENTRY(enforce_length_length)
{
    uint64_t v = IN("v"); enc e; enc_length(&e, v);
    ASSERT(crefl_asn1_ber_length_length(v) == e.n, "[post] length of length is the number of length octets");
}
//@ enforce_length_write props=C02,C14,C16 fn=crefl_asn1_ber_length_write
ENTRY(enforce_length_write)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g);
    uint64_t v = IN("v"); enc e; enc_length(&e, v);
    post_write(&b, &g, crefl_asn1_ber_length_write(&b, v), &e);
}
//@ enforce_length_read props=C02,C14,C15 fn=crefl_asn1_ber_length_read
ENTRY(enforce_length_read)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g);
    dec x; dec_length(&x, g.w, g.avail());
    u64 v = IN("old"); int r = crefl_asn1_ber_length_read(&b, &v);
    post_read(&b, &g, r, v, &x);
}
//@ roundtrip_length props=C02
ENTRY(roundtrip_length)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g);
    uint64_t v = IN("v");
    if (crefl_asn1_ber_length_write(&b, v) == 0) {
        COVER(v > ((uint64_t)1 << 60), "eight length octets");
        uint64_t end = vf_pos(&b, &g); vf_rewind(&b, &g); u64 x = 0;
        ASSERT(crefl_asn1_ber_length_read(&b, &x) == 0, "[lemma] what was written is accepted");
        ASSERT(x == v && vf_pos(&b, &g) == end, "[lemma] length round trip");
    }
}
