#include "codec.h"
//@@ prims=1 cases=12
/* boolean (X.690 8.2), null (8.8) and octet string (8.7) contents */
//@ boolean_length props=C13 cases=1 fn=crefl_asn1_ber_boolean_length,crefl_asn1_ber_null_length,crefl_asn1_ber_octets_length
ENTRY(boolean_length)
{
    bool v = IN("v") & 1; asn1_string s = { IN("n_count"), 0 };
    ASSERT(crefl_asn1_ber_boolean_length(&v) == 1, "[post] a boolean has one content octet");
    ASSERT(crefl_asn1_ber_null_length() == 0, "[post] a null has no content octets");
    ASSERT(crefl_asn1_ber_octets_length(&s) == s.count, "[post] an octet string has its own octets as contents");
}
//@ boolean_write props=C13,C14,C16 fn=crefl_asn1_ber_boolean_write
ENTRY(boolean_write)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g); bool v = IN("v") & 1; uint64_t len = IN("len");
    int r = crefl_asn1_ber_boolean_write(&b, len, &v);
    bool ok = len == 1 && vf_fits(&g, 0, 1);
    ASSERT(ok ? r == 0 : r < 0, "[post] write succeeds exactly when the contents are one octet and fit");
    ASSERT(vf_pos(&b, &g) == (ok ? 1 : 0), "[post] cursor advances by the octets written");
    if (ok) ASSERT((g.base[0] != 0) == v, "[post] false is zero, true is not (8.2.2)");
    ASSERT(vf_frame(&b, &g, ok ? 1 : 0), "[frame] nothing else changes");
}
//@ boolean_read props=C13,C14,C15 fn=crefl_asn1_ber_boolean_read
ENTRY(boolean_read)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g); bool v = IN("v") & 1; uint64_t len = IN("len");
    int r = crefl_asn1_ber_boolean_read(&b, len, &v);
    bool ok = len == 1 && vf_fits(&g, 0, 1);
    ASSERT(ok ? r == 0 : r < 0, "[post] read succeeds exactly when the contents are one octet and there");
    ASSERT(vf_pos(&b, &g) == (ok ? 1 : 0), "[post] cursor advances by the octets read");
    if (ok) ASSERT(v == (g.w[0] != 0), "[post] zero is false, anything else is true (8.2.2)");
    ASSERT(vf_frame(&b, &g, 0), "[frame] reading changes no byte of the buffer");
}
//@ null_rw props=C13,C14,C15,C16 fn=crefl_asn1_ber_null_read,crefl_asn1_ber_null_write
ENTRY(null_rw)
{
    crefl_buf b; gbuf g; vf_mkbuf(&b, &g); uint64_t len = IN("len"), l2 = IN("len");
    int r = crefl_asn1_ber_null_write(&b, len);
    ASSERT(len == 0 ? r == 0 : r < 0, "[post] a null is written exactly with empty contents");
    ASSERT(vf_pos(&b, &g) == 0 && vf_frame(&b, &g, 0), "[frame] writing a null changes nothing");
    r = crefl_asn1_ber_null_read(&b, l2);
    ASSERT(l2 == 0 ? r == 0 : r < 0, "[post] a null is read exactly from empty contents");
    ASSERT(vf_pos(&b, &g) == 0 && vf_frame(&b, &g, 0), "[frame] reading a null changes nothing");
}
