#define DLN 4
#include "der.h"
//@@ prims=1 defs=WIN=18 unwind=20 gunwind=20 gfull=1 gbound=the_15_components_of_the_format
/* object identifier contents: a sequence of base-128 subidentifiers, each by the contract of
 * crefl_asn1_ber_tag_{write,read} (enforced in ident.cc); the loops by invariant */
static inline void mkoid(asn1_oid *o)
{
    o->count = IN("n_count"); if (vf_native) o->count %= 16;
    for (int i = 0; i < asn1_oid_comp_max; i++) { o->oid[i] = IN("comp"); if (vf_native) o->oid[i] &= ((uint64_t)1 << 56) - 1; }
    if (vf_native && IN("ok") % 8) { o->oid[0] %= 3; if (o->oid[0] < 2) o->oid[1] %= 40; }
    ASSUME(o->count <= asn1_oid_comp_max);
}
#ifndef VF_NATIVE
/* ghost: the subidentifiers, the octets before each, how many were written or read so far */
static struct { uint64_t v[14]; uint8_t s[15]; uint8_t n, k, av; bool failed; } OW;
static crefl_buf OB; static gbuf OG;
static asn1_oid OO, OX;
static inline void osub(const asn1_oid *o)
{
    OW.n = (uint8_t)oid_nsub(o); OW.k = 0; OW.failed = false; OW.s[0] = 0;
    for (int i = 0; i < 14; i++) { OW.v[i] = i < OW.n ? oid_sub(o, i) : 0; OW.s[i + 1] = OW.s[i] + (i < OW.n ? (uint8_t)digits7(OW.v[i]) : 0); }
    uint64_t a = OG.size - OG.off; OW.av = a < 200 ? (uint8_t)a : 200;
}
static inline uint8_t os_at(int k) { uint8_t r = 0; for (int i = 0; i < 15; i++) if (i == k) r = OW.s[i]; return r; }
static inline uint64_t ov_at(int k) { uint64_t r = 0; for (int i = 0; i < 14; i++) if (i == k) r = OW.v[i]; return r; }
STUB int stub_osub_write(crefl_buf *b, u64 v)
{
    ASSERT(b == &OB && OB.data == OG.data && OB.data_size == OG.size, "[pre] the buffer of the call");
    ASSERT(OB.data_offset == OG.off + OG.pos, "[general] cursor moved only through the components");
    ASSERT(!OW.failed && OW.k < OW.n, "[post] one subidentifier per component, the first two combined");
    ASSERT(v == ov_at(OW.k), "[post] the subidentifiers are X*40+Y and the remaining components in order");
    if (v < (uint64_t)1 << 56 && os_at(OW.k + 1) <= OW.av) { OW.k++; vf_setpos(&OB, &OG, os_at(OW.k)); return 0; }
    OW.failed = true; uint64_t p = nd_u64(); ASSUME(p >= OG.pos && p <= OG.size - OG.off); vf_setpos(&OB, &OG, p); return -1;
}
extern "C" __attribute__((used)) void hav_owrite(size_t &i)
{
    __vf_modifies(&OB); __vf_modifies(&OG); __vf_modifies(&OW);
    OW.k = (uint8_t)nd_u64(); ASSUME(OW.k <= OW.n && os_at(OW.k) <= OW.av); OW.failed = false; vf_setpos(&OB, &OG, os_at(OW.k));
    i = OW.k == 0 ? 0 : OO.count > 1 ? OW.k + 1 : OW.k;
}
extern "C" __attribute__((used)) bool inv_owrite(size_t &i)
{
    return OW.k <= OW.n && !OW.failed && OG.pos == os_at(OW.k) && os_at(OW.k) <= OW.av && OB.data_offset == OG.off + OG.pos && OB.data == OG.data && OB.data_size == OG.size &&
        i == (OW.k == 0 ? (size_t)0 : OO.count > 1 ? (size_t)OW.k + 1 : (size_t)OW.k);
}
extern "C" __attribute__((used)) uint64_t var_owrite(void) { return OW.n - OW.k; }
/* reading: arbitrary octets, of which the j-th subidentifier is followed (j arbitrary) ... */
static struct { uint64_t len, pos, old, vj; uint8_t k, j; bool failed, twin; } OR_;
static asn1_oid OD;
STUB int stub_osub_read(crefl_buf *b, u64 *v)
{
    ASSERT(b == &OB && OB.data == OG.data && OB.data_size == OG.size, "[pre] the buffer of the call");
    ASSERT(OB.data_offset == OG.off + OG.pos, "[general] cursor moved only through the components");
    ASSERT(!OR_.failed, "[post] reading stops at a malformed subidentifier");
    uint64_t a = OG.size - OG.off - OG.pos, n;
    if (OR_.twin) {                                           /* ... or those written by the writer */
        ASSERT(OR_.k < OW.n, "[lemma] no more subidentifiers are read than were written");
        *v = ov_at(OR_.k); OR_.k++; vf_setpos(&OB, &OG, os_at(OR_.k)); return 0;
    }
    n = nd_u64(); uint64_t x = nd_u64(); ASSUME(n <= a); *v = 0;
    if (nd_u64() & 1) { vf_setpos(&OB, &OG, OG.pos + n); OR_.failed = true; return -1; }
    ASSUME(n >= 1 && n <= 8 && x < (uint64_t)1 << 56);
    *v = x; if (OR_.k == OR_.j) OR_.vj = x;
    OR_.k++; vf_setpos(&OB, &OG, OG.pos + n); return 0;
}
static inline uint64_t arc_of(uint64_t v) { return v < 40 ? 0 : v < 80 ? 1 : 2; }
/* the components stored so far are the right ones */
static inline bool oread_ok(void)
{
    bool ok = true;
    if (OR_.twin) { for (int i = 0; i < asn1_oid_comp_max; i++) if (OR_.k > 0 && i <= OR_.k) ok = ok & (OX.oid[i] == OO.oid[i]); return ok; }
    if (OR_.j >= OR_.k) return true;
    if (OR_.j == 0) return OX.oid[0] == arc_of(OR_.vj) && OX.oid[1] == OR_.vj - 40 * arc_of(OR_.vj);
    for (int i = 1; i < 14; i++) if (i == OR_.j) ok = OX.oid[i + 1] == OR_.vj;
    return ok;
}
extern "C" __attribute__((used)) void hav_oread(size_t &start, size_t &offset, size_t &n)
{
    __vf_modifies(&OB); __vf_modifies(&OG); __vf_modifies(&OR_); __vf_modifies(&OX);
    OR_.k = (uint8_t)nd_u64(); OR_.vj = nd_u64(); OR_.failed = false; ASSUME(OR_.k <= 14); OX.count = nd_u64();
    uint64_t p = nd_u64(); ASSUME(p <= OG.size - OG.off);
    if (OR_.twin) { ASSUME(OR_.k <= OW.n && os_at(OR_.k) <= OW.av); p = os_at(OR_.k); }
    vf_setpos(&OB, &OG, p); offset = start + p; n = OR_.k ? OR_.k + 1 : 0;
    for (int i = 0; i < asn1_oid_comp_max; i++) OX.oid[i] = OR_.twin && OR_.k > 0 && i <= OR_.k ? OO.oid[i] : nd_u64();
}
extern "C" __attribute__((used)) bool inv_oread(size_t &start, size_t &offset, size_t &n)
{
    return OR_.k <= 14 && !OR_.failed && OG.pos <= OG.size - OG.off && OB.data_offset == OG.off + OG.pos && start == OG.off && offset == OB.data_offset &&
        OB.data == OG.data && OB.data_size == OG.size && n == (OR_.k ? (size_t)OR_.k + 1 : 0) && oread_ok() && (!OR_.twin || (OR_.k <= OW.n && OG.pos == os_at(OR_.k) && os_at(OR_.k) <= OW.av));
}
extern "C" __attribute__((used)) uint64_t var_oread(void) { return 15 - OR_.k; }
static inline void oread_begin(uint64_t len, bool twin) { OR_.len = len; OR_.k = 0; OR_.failed = false; OR_.twin = twin; OR_.vj = 0; OR_.j = (uint8_t)nd_u64(); ASSUME(OR_.j < 14); OX.count = IN("old"); }
#endif
//@ enforce_oid_length props=C11,C14 fn=crefl_asn1_ber_oid_length prims=0
ENTRY(enforce_oid_length)
{
    asn1_oid o; mkoid(&o); asn1_oid o0 = o;
    size_t n = crefl_asn1_ber_oid_length(&o);
    if (oid_valid(&o)) { COVER(n == 112, "the longest"); ASSERT(n == len_oid(&o), "[post] the length is the number of subidentifier octets"); }
    ASSERT(oid_eq(&o, &o0), "[frame] the identifier is not changed");
}
//@ enforce_oid_write props=C11,C14,C16 fn=crefl_asn1_ber_oid_write cuts=crefl_asn1_ber_oid_write:0:owrite stubs=crefl_asn1_ber_tag_write:stub_osub_write gstubs=crefl_asn1_ber_tag_write:stub_osub_write
ENTRY(enforce_oid_write)
{
#ifndef VF_NATIVE
    mkoid(&OO); asn1_oid o0 = OO; vf_mkghost(&OB, &OG); osub(&OO); uint64_t L = os_at(OW.n);
    int r = crefl_asn1_ber_oid_write(&OB, L, &OO);
    ASSERT(OB.data == OG.data && OB.data_size == OG.size && OB.data_offset >= OG.off && OB.data_offset <= OG.size, "[post] the cursor stays in the buffer");
    ASSERT(oid_eq(&OO, &o0), "[frame] the identifier is not changed");
    if (!oid_valid(&OO)) return;
    ASSERT((r == 0) == (L <= OW.av), "[post] an identifier that fits is written, another is refused");
    if (r != 0) { ASSERT(r < 0, "[post] failure is reported as a negative status"); return; }
    COVER(OO.count == 15, "fifteen components");
    ASSERT(OW.k == OW.n, "[post] one subidentifier per component, the first two combined");
    ASSERT(OB.data_offset == OG.off + L, "[post] the cursor advances by the predicted length");
#else
    crefl_buf b; gbuf g; asn1_oid o; mkoid(&o); asn1_oid o0 = o;
    ASSUME(oid_valid(&o)); vf_mkbuf(&b, &g); uint8_t c[200]; uint64_t L = 0, av = g.size - g.off;
    for (uint64_t i = 0; i < oid_nsub(&o); i++) { enc e; enc_tag(&e, oid_sub(&o, i)); for (uint64_t k = 0; k < e.n; k++) c[L++] = e.b[k]; }
    int r = crefl_asn1_ber_oid_write(&b, L, &o);
    ASSERT((r == 0) == (L <= av), "[post] an identifier that fits is written, another is refused");
    ASSERT(vf_inside(&b, &g) && (r != 0 || vf_pos(&b, &g) == L), "[post] the cursor advances by the predicted length");
    ASSERT(vf_frame(&b, &g, r == 0 ? L : av), "[frame] only the octets of the object change");
    for (uint64_t i = 0; r == 0 && i < L; i++) ASSERT(g.base[i] == c[i], "[post] the subidentifier octets");
    ASSERT(oid_eq(&o, &o0), "[frame] the identifier is not changed");
#endif
}
//@ enforce_oid_read props=C11,C14,C15 fn=crefl_asn1_ber_oid_read cuts=crefl_asn1_ber_oid_read:0:oread stubs=crefl_asn1_ber_tag_read:stub_osub_read gstubs=crefl_asn1_ber_tag_read:stub_osub_read
ENTRY(enforce_oid_read)
{
    uint64_t len = IN("len");
#ifndef VF_NATIVE
    vf_mkghost(&OB, &OG); oread_begin(len, false);
    int r = crefl_asn1_ber_oid_read(&OB, len, &OX);
    ASSERT(OB.data == OG.data && OB.data_size == OG.size && OB.data_offset >= OG.off && OB.data_offset <= OG.size, "[post] the cursor stays in the buffer");
    if (r != 0) { ASSERT(r < 0, "[post] failure is reported as a negative status");
        ASSERT(OX.count == 0 || OX.count <= OR_.k + 1, "[post] no more components are reported than were stored"); return; }
    COVER(OR_.k == 14, "fifteen components");
    ASSERT(OR_.k <= 14 && !OR_.failed, "[post] no more than fifteen components are accepted");
    ASSERT(OB.data_offset - OG.off == len, "[post] exactly the given length is consumed");
    ASSERT(OX.count == (OR_.k ? (uint64_t)OR_.k + 1 : 0), "[post] the count is the number of components");
    ASSERT(oread_ok(), "[post] the components are those of the subidentifiers");
#else
    crefl_buf b; gbuf g; asn1_oid o;
    vf_mkbuf(&b, &g); uint64_t av = g.size - g.off, seed = IN("bits");
    if (IN("ok") % 2) for (uint64_t i = 0; i < av; i++) { seed = seed * 6364136223846793005ULL + 1; g.base[i] = (uint8_t)(seed >> 60) < 12 ? (uint8_t)(seed >> 40) & 127 : (uint8_t)(seed >> 40); g.w[i < WIN ? i : 0] = g.base[i < WIN ? i : 0]; }
    if (IN("ok") % 4) len %= av + 2;
    uint8_t *copy = (uint8_t*)malloc(av + 1); memcpy(copy, g.base, av);
    uint64_t want[16], n = 0, p = 0; bool ok = true;
    while (ok && p < len) {
        uint64_t v = 0, k = 0; bool end = false;
        while (p < av && k < 8) { v = v << 7 | (copy[p] & 127); k++; if (!(copy[p++] & 128)) { end = true; break; } }
        if (!end) { ok = false; break; }
        if (n == 0) { want[0] = v < 80 ? v / 40 : 2; want[1] = v - want[0] * 40; n = 2; }
        else if (n < 15) want[n++] = v; else ok = false;
    }
    ok = ok && p == len;
    int r = crefl_asn1_ber_oid_read(&b, len, &o);
    ASSERT(vf_inside(&b, &g), "[post] the cursor stays in the buffer");
    ASSERT(r != 0 || ok, "[post] only whole subidentifiers of exactly the given length are accepted");
    ASSERT(o.count <= asn1_oid_comp_max, "[post] no more components are reported than were stored");
    if (r == 0) { ASSERT(o.count == n && vf_pos(&b, &g) == len, "[post] the count is the number of components"); for (uint64_t i = 0; i < n; i++) ASSERT(o.oid[i] == want[i], "[post] the components are those of the subidentifiers"); }
    for (uint64_t i = 0; i < av; i++) ASSERT(g.base[i] == copy[i], "[frame] reading changes nothing");
#endif
}
//@ roundtrip_oid props=C11 cuts=crefl_asn1_ber_oid_write:0:owrite,crefl_asn1_ber_oid_read:0:oread stubs=crefl_asn1_ber_tag_write:stub_osub_write,crefl_asn1_ber_tag_read:stub_osub_read gstubs=crefl_asn1_ber_tag_write:stub_osub_write,crefl_asn1_ber_tag_read:stub_osub_read
ENTRY(roundtrip_oid)
{
#ifndef VF_NATIVE
    mkoid(&OO); vf_mkghost(&OB, &OG); osub(&OO); ASSUME(oid_valid(&OO)); uint64_t L = os_at(OW.n);
    if (crefl_asn1_ber_oid_write(&OB, L, &OO) == 0) {
        COVER(OO.count == 15, "fifteen components");
        ASSERT(OB.data_offset == OG.off + L, "[lemma] as many octets as predicted");
        vf_rewind(&OB, &OG); oread_begin(L, true);
        ASSERT(crefl_asn1_ber_oid_read(&OB, L, &OX) == 0, "[lemma] what was written is accepted");
        ASSERT(oid_eq(&OO, &OX), "[lemma] identifier round trip"); ASSERT(OB.data_offset == OG.off + L, "[lemma] exactly the length is consumed");
    }
#else
    crefl_buf b; gbuf g; asn1_oid o, x; mkoid(&o); x.count = 0; vf_mkbuf(&b, &g);
    ASSUME(oid_valid(&o)); uint64_t L = crefl_asn1_ber_oid_length(&o);
    if (crefl_asn1_ber_oid_write(&b, L, &o) == 0) {
        ASSERT(vf_pos(&b, &g) == L, "[lemma] as many octets as predicted");
        vf_rewind(&b, &g);
        ASSERT(crefl_asn1_ber_oid_read(&b, L, &x) == 0, "[lemma] what was written is accepted");
        ASSERT(oid_eq(&o, &x), "[lemma] identifier round trip"); ASSERT(vf_pos(&b, &g) == L, "[lemma] exactly the length is consumed");
    }
#endif
}
