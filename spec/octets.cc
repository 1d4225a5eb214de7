#include "bulk.h"
//@@ cases=1
/* octet string contents (X.690 8.7): whole objects of any size, the octet at an arbitrary position
 * of each object is followed.  x.len = octets the caller's string object has room for / holds,
 * len = claimed content length */
static inline uint64_t clen(void) { return IN("len_content"); }
//@ octets_write props=C13,C16 fn=crefl_asn1_ber_octets_write
ENTRY(octets_write)
{
    bulk x; mkbulk(&x); uint64_t len = clen(); ASSUME(x.len == x.slen);
    asn1_string s = { x.len, (u8*)x.s };
    int r = crefl_asn1_ber_octets_write(&x.b, len, &s);
    bool fits = len <= x.size - x.off; uint64_t n = vf_min(len, x.len);
    COVER(fits && len > 1000000 && x.len == len, "a large string");
    ASSERT(fits ? r == 0 : r < 0, "[post] write succeeds exactly when the object fits");
    ASSERT(s.count == x.len && s.str == (u8*)x.s, "[frame] the string object is not changed");
    x.len = n;
    ASSERT(x.b.data_offset == x.off + (fits ? len : 0), "[post] cursor advances by exactly the content length");
    x.b.data_offset = x.off + (fits ? n : 0);
    post_bulk(&x, fits ? n : 0, fits, true);
}
//@ octets_read props=C13,C15 fn=crefl_asn1_ber_octets_read
ENTRY(octets_read)
{
    bulk x; mkbulk(&x); uint64_t len = clen(); bool null = IN("null") & 1;
    if (!null) ASSUME(x.len == x.slen);
    asn1_string s = { x.len, null ? (u8*)0 : (u8*)x.s }; uint64_t count = x.len;
    int r = crefl_asn1_ber_octets_read(&x.b, len, &s);
    bool fits = len <= x.size - x.off; uint64_t n = vf_min(len, x.len);
    COVER(!null && fits && len > 1000000 && x.len < len && x.len > 1000, "a large string cut to the caller's room");
    ASSERT(fits ? r == 0 : r < 0, "[post] read succeeds exactly when the object is there");
    ASSERT(s.str == (null ? (u8*)0 : (u8*)x.s), "[frame] the destination pointer is not changed");
    ASSERT(s.count == (fits ? len : count), "[post] reports the object length; a refused read reports nothing");
    ASSERT(x.b.data_offset == x.off + (fits ? len : 0), "[post] cursor advances by exactly the content length");
    if (vf_native) { /* compare whole objects */
        for (uint64_t i = 0; i < x.size; i++) ASSERT((uint8_t)x.d[i] == x.cb[i], "[frame] reading changes no octet of the buffer");
        for (uint64_t i = 0; i < x.slen; i++) ASSERT((uint8_t)x.s[i] == (!null && fits && i < n ? x.cb[x.off + i] : x.cs[i]), "[post] exactly the smaller of object and room is delivered");
        return;
    }
    if (x.k < x.size) ASSERT((uint8_t)x.d[x.k] == x.bk, "[frame] reading changes no octet of the buffer");
    if (x.j < x.slen) {
        if (!null && fits && x.j < n) { if (x.k == x.off + x.j) ASSERT((uint8_t)x.s[x.j] == x.bk, "[post] exactly the buffer octets are delivered"); }
        else ASSERT((uint8_t)x.s[x.j] == x.sj, "[frame] nothing beyond the smaller of object and room is delivered");
    }
}
