#include "der.h"
//@@ prims=1 defs=WIN=18 cases=1 gcases=19 stubs=crefl_asn1_ber_ident_write:stub_ident_write,crefl_asn1_ber_ident_read:stub_ident_read,crefl_asn1_ber_length_write:stub_length_write,crefl_asn1_ber_length_read:stub_length_read,crefl_asn1_ber_boolean_write:stub_boolean_write,crefl_asn1_ber_boolean_read:stub_boolean_read,crefl_asn1_ber_null_write:stub_null_write,crefl_asn1_ber_null_read:stub_null_read,crefl_asn1_ber_integer_u64_write:stub_u64_write,crefl_asn1_ber_integer_u64_read:stub_u64_read,crefl_asn1_ber_integer_s64_write:stub_s64_write,crefl_asn1_ber_integer_s64_read:stub_s64_read,crefl_asn1_ber_integer_u64_write_byval:stub_u64_write_byval,crefl_asn1_ber_integer_u64_read_byval:stub_u64_read_byval,crefl_asn1_ber_integer_s64_write_byval:stub_s64_write_byval,crefl_asn1_ber_integer_s64_read_byval:stub_s64_read_byval,crefl_asn1_ber_real_f64_write:stub_real_write,crefl_asn1_ber_real_f64_read:stub_real_read,crefl_asn1_ber_real_f64_write_byval:stub_real_write_byval,crefl_asn1_ber_real_f64_read_byval:stub_real_read_byval,crefl_asn1_ber_oid_write:stub_oid_write,crefl_asn1_ber_oid_read:stub_oid_read,crefl_asn1_ber_octets_write:stub_octets_write,crefl_asn1_ber_octets_read:stub_octets_read
/* complete objects: identifier (universal, primitive, the requested tag), length, contents */
#ifdef DER_STUBS
#define MK(b, g) vf_mkghost(b, g)
#define MKT(c, h, g) do { vf_mkghost(c, h); ASSUME((h)->size == (g)->size && (h)->off == (g)->off); } while (0)
#else
#define MK(b, g) vf_mkbuf(b, g)
#define MKT(c, h, g) vf_mktwin(c, h, g)
static inline void enc_cat(enc *e, const enc *f)
{
    for (uint64_t i = 0; i < WIN; i++) for (uint64_t n = 1; n < 9; n++) if (n == e->n && i >= n) e->b[i] = f->b[i - n];
    e->n += f->n; e->ok = e->ok & f->ok;
}
static inline void enc_hdr(enc *e, uint32_t tag, uint64_t len)      /* len < 128: one length octet */
{
    sid s = { tag, 0, false }; enc_ident(e, s);
    enc l; enc_length(&l, len); enc_cat(e, &l);
}
#endif
static inline void enc_bool(enc *e, bool v) { for (uint64_t i = 0; i < WIN; i++) e->b[i] = 0; e->b[0] = v; e->n = 1; e->ok = true; }
static inline void enc_none(enc *e) { for (uint64_t i = 0; i < WIN; i++) e->b[i] = 0; e->n = 0; e->ok = true; }
static inline bool eqreal(uint64_t u, double x) { return f64_isnan(u) ? f64_isnan(f64_bits(x)) : f64_bits(x) == u; }
/* an object is exactly identifier, length and contents, all of it accounted for */
static inline void post_obj(crefl_buf *b, gbuf *g, int r, uint32_t t, int kind, uint64_t v, const void *ptr, uint64_t L)
{
#ifdef DER_STUBS
    dlog *d = &dl[dl_of(b)]; uint64_t n1 = len_ident(t), n2 = len_length(L), av = g->size - g->off;
    bool fits = L <= av && n1 + n2 <= av - L;
    ASSERT(vf_inside(b, g), "[post] the cursor stays in the buffer");
    COVER(fits && t > 0x1fffff, "a long tag");
    if (fits) ASSERT(r == 0, "[post] an object that fits is written");
    if (r != 0) { ASSERT(r < 0, "[post] failure is reported as a negative status"); return; }
    ASSERT(d->nw == 3 && d->w[0].kind == K_ID && d->w[1].kind == K_LEN && d->w[2].kind == kind, "[general] an object is written as identifier, length, contents");
    ASSERT(d->w[0].ok && d->w[1].ok && d->w[2].ok, "[post] success is reported only when every part was written");
    ASSERT(d->w[0].p == 0 && d->w[1].p == n1 && d->w[2].p == n1 + n2, "[post] identifier, length and contents follow each other");
    sid s = { t, 0, false };
    ASSERT(d->w[0].v == pack_id(s), "[post] the identifier is universal, primitive and carries the tag");
    ASSERT(d->w[1].v == L, "[post] the length is the number of content octets that follow");
    ASSERT(d->w[2].v == v && d->w[2].ptr == ptr, "[post] the contents are those of the value");
    ASSERT(d->w[2].n == L && d->w[2].arg == L, "[post] as many content octets as announced");
    ASSERT(vf_pos(b, g) == n1 + n2 + L, "[post] the cursor is immediately after the object");
#endif
}
static inline void post_back(crefl_buf *b, gbuf *g, int q, uint32_t t, uint64_t L, bool same)
{
#ifdef DER_STUBS
    dlog *d = &dl[dl_of(b)];
    ASSERT(d->nr == 3 && d->r[0].kind == K_ID && d->r[1].kind == K_LEN && d->r[2].kind == d->w[2].kind, "[general] an object is read as identifier, length, contents");
    ASSERT(q == 0, "[lemma] the written object is accepted");
    ASSERT(vf_pos(b, g) == len_ident(t) + len_length(L) + L, "[lemma] reading leaves the cursor immediately after the object");
    ASSERT(same, "[lemma] the value read is the value written");
#endif
}
#ifdef DER_STUBS
#define DER(ent, SETUP, KIND, V, CONTENT, wcall, rdecl, rcall, same) ENTRY(ent) { crefl_buf b; gbuf g; MK(&b, &g); \
    uint32_t t = (uint32_t)IN("tag"); asn1_tag tag = (asn1_tag)t; SETUP; \
    enc c; CONTENT; int r = (wcall); post_obj(&b, &g, r, t, KIND, V, 0, c.n); \
    if (r == 0) { vf_rewind(&b, &g); rdecl; int q = (int)(rcall); post_back(&b, &g, q, t, c.n, same); } }
#else
#define DER(ent, SETUP, KIND, V, CONTENT, wcall, rdecl, rcall, same) ENTRY(ent) { crefl_buf b; gbuf g; MK(&b, &g); \
    uint32_t t = (uint32_t)IN("tag"); asn1_tag tag = (asn1_tag)t; SETUP; \
    enc c; CONTENT; enc e; enc_hdr(&e, t, c.n); enc_cat(&e, &c); \
    int r = (wcall); post_write(&b, &g, r, &e); \
    if (r == 0) { COVER(t > 0x1fffff, "a long tag"); vf_rewind(&b, &g); rdecl; int q = (int)(rcall); \
        ASSERT(q == 0, "[lemma] the written object is accepted"); \
        ASSERT(vf_pos(&b, &g) == e.n, "[lemma] reading leaves the cursor immediately after the object"); \
        ASSERT(same, "[lemma] the value read is the value written"); \
        ASSERT(vf_frame(&b, &g, e.n), "[frame] reading changes nothing"); } }
#endif
//@ der_boolean props=C14,C13,C16 fn=crefl_asn1_der_boolean_write,crefl_asn1_der_boolean_read
DER(der_boolean, bool v = IN("v") & 1, K_BOOL, v, enc_bool(&c, v), crefl_asn1_der_boolean_write(&b, tag, &v), bool x = !v, crefl_asn1_der_boolean_read(&b, tag, &x), x == v)
//@ der_null props=C14,C13,C16 fn=crefl_asn1_der_null_write,crefl_asn1_der_null_read
DER(der_null, , K_NULL, 0, enc_none(&c), crefl_asn1_der_null_write(&b, tag), , crefl_asn1_der_null_read(&b, tag), true)
//@ der_u64 props=C14,C16 fn=crefl_asn1_der_integer_u64_write,crefl_asn1_der_integer_u64_read
DER(der_u64, u64 v = IN("v"), K_U64, v, enc_int(&c, v, octets8(v), false), crefl_asn1_der_integer_u64_write(&b, tag, &v), u64 x = 0, crefl_asn1_der_integer_u64_read(&b, tag, &x), x == v)
//@ der_s64 props=C14,C16 fn=crefl_asn1_der_integer_s64_write,crefl_asn1_der_integer_s64_read
DER(der_s64, s64 v = (s64)IN("v"), K_S64, (uint64_t)v, enc_int(&c, (uint64_t)v, octets_s(v), false), crefl_asn1_der_integer_s64_write(&b, tag, &v), s64 x = 0, crefl_asn1_der_integer_s64_read(&b, tag, &x), x == v)
//@ der_real props=C14,C16 fn=crefl_asn1_der_real_f64_write,crefl_asn1_der_real_f64_read opts=--sat-solver,cadical
DER(der_real, uint64_t u = IN("u"); double v = f64_of(u), K_REAL, u, enc_real(&c, u), crefl_asn1_der_real_f64_write(&b, tag, &v), double x = 1, crefl_asn1_der_real_f64_read(&b, tag, &x), eqreal(u, x))

/* object identifiers and octet strings: contents of any size */
static inline void mkoid(asn1_oid *o) { o->count = IN("n_count") % 16; for (int i = 0; i < asn1_oid_comp_max; i++) o->oid[i] = IN("comp"); }
/* native: the expected octets of one object, compared as a whole */
static inline void native_obj(crefl_buf *b, gbuf *g, int r, uint32_t t, const uint8_t *c, uint64_t L, const uint8_t *dst, uint64_t ndst)
{
    uint64_t n1 = t < 31 ? 1 : 1 + digits7(t), n2 = L < 128 ? 1 : 1 + octets8(L), av = g->size - g->off;
    bool fits = L <= av && n1 + n2 <= av - L;
    ASSERT((r == 0) == fits, "[post] an object that fits is written, another is refused");
    ASSERT(vf_inside(b, g), "[post] the cursor stays in the buffer");
    if (r == 0) ASSERT(vf_pos(b, g) == n1 + n2 + L, "[post] the cursor is immediately after the object");
    ASSERT(vf_frame(b, g, r == 0 ? n1 + n2 + L : av), "[frame] only the octets of the object change");
    if (r != 0) return;
    enc e, l; sid s = { t, 0, false }; enc_ident(&e, s); enc_length(&l, L);
    for (uint64_t i = 0; i < n1; i++) ASSERT(g->base[i] == e.b[i], "[post] the identifier is universal, primitive and carries the tag");
    for (uint64_t i = 0; i < n2; i++) ASSERT(g->base[n1 + i] == l.b[i], "[post] the length is the number of content octets that follow");
    for (uint64_t i = 0; i < L; i++) ASSERT(g->base[n1 + n2 + i] == c[i], "[post] the contents are those of the value");
}
//@ der_oid props=C14,C11,C16 fn=crefl_asn1_der_oid_write,crefl_asn1_der_oid_read,crefl_asn1_ber_oid_length
ENTRY(der_oid)
{
    crefl_buf b; gbuf g; uint32_t t = (uint32_t)IN("tag"); asn1_tag tag = (asn1_tag)t; asn1_oid o, x; mkoid(&o);
#ifdef DER_STUBS
    MK(&b, &g); ASSUME(o.count <= asn1_oid_comp_max); asn1_oid o0 = o; uint64_t L = len_oid(&o);
    int r = crefl_asn1_der_oid_write(&b, tag, &o);
    ASSERT(vf_inside(&b, &g), "[post] the cursor stays in the buffer");
    if (!oid_valid(&o)) return;
    COVER(o.count == 15 && L == 112, "the largest identifier");
    post_obj(&b, &g, r, t, K_OID, 0, &o, L);
    ASSERT(oid_eq(&o, &o0), "[frame] the identifier is not changed");
    if (r == 0) { vf_rewind(&b, &g); int q = crefl_asn1_der_oid_read(&b, tag, &x); post_back(&b, &g, q, t, L, oid_eq(&o, &x)); }
#elif defined(VF_NATIVE)
    if (o.count > 1) { o.oid[0] %= 3; if (o.oid[0] < 2) o.oid[1] %= 40; } for (int i = 0; i < 15; i++) o.oid[i] &= ((uint64_t)1 << 56) - 1;
    ASSUME(oid_valid(&o)); MK(&b, &g); uint8_t c[200]; uint64_t L = 0;
    for (uint64_t i = 0; i < oid_nsub(&o); i++) { enc e; enc_tag(&e, oid_sub(&o, i)); for (uint64_t k = 0; k < e.n; k++) c[L++] = e.b[k]; }
    int r = crefl_asn1_der_oid_write(&b, tag, &o); native_obj(&b, &g, r, t, c, L, 0, 0);
    if (r == 0) { vf_rewind(&b, &g); int q = crefl_asn1_der_oid_read(&b, tag, &x);
        ASSERT(q == 0 && oid_eq(&o, &x), "[lemma] the value read is the value written");
        ASSERT(b.data_offset - g.off > L && c[L - 1] == g.base[vf_pos(&b, &g) - 1], "[lemma] reading leaves the cursor immediately after the object"); }
#else
    ASSERT(false, "[limit] objects of this size only through the component contracts");
#endif
}
//@ der_octets props=C14,C13,C16 fn=crefl_asn1_der_octets_write,crefl_asn1_der_octets_read
ENTRY(der_octets)
{
    crefl_buf b; gbuf g; uint32_t t = (uint32_t)IN("tag"); asn1_tag tag = (asn1_tag)t;
#ifdef DER_STUBS
    static u8 src, dst; MK(&b, &g); uint64_t L = IN("len"), room = IN("len_room");
    asn1_string s = { L, &src }, x = { room, &dst };
    int r = crefl_asn1_der_octets_write(&b, tag, &s);
    ASSERT(s.count == L && s.str == &src, "[frame] the string object is not changed");
    COVER(L > 1000000 && r == 0, "a large string");
    post_obj(&b, &g, r, t, K_OCT, L, &src, L);
    if (r == 0) { vf_rewind(&b, &g); int q = crefl_asn1_der_octets_read(&b, tag, &x); dlog *d = &dl[0];
        post_back(&b, &g, q, t, L, x.count == L && x.str == &dst && d->r[2].ptr == &dst && d->r[2].room == room && d->r[2].arg == L); }
#elif defined(VF_NATIVE)
    uint64_t L = IN("len"); ASSUME(L < 3000); MK(&b, &g); uint64_t room = IN("len_room"); ASSUME(room < 4000);
    u8 *c = (u8*)malloc(L + 1), *d = (u8*)malloc(room); for (uint64_t i = 0; i < L; i++) c[i] = (u8)(i * 13 + 5); for (uint64_t i = 0; i < room; i++) d[i] = 0xee;
    asn1_string s = { L, c }, x = { room, d };
    int r = crefl_asn1_der_octets_write(&b, tag, &s); native_obj(&b, &g, r, t, c, L, 0, 0);
    if (r == 0) { uint64_t end = vf_pos(&b, &g); vf_rewind(&b, &g); int q = crefl_asn1_der_octets_read(&b, tag, &x);
        ASSERT(q == 0 && x.count == L && x.str == d && vf_pos(&b, &g) == end, "[lemma] the written object is accepted and consumed");
        for (uint64_t i = 0; i < room; i++) ASSERT(d[i] == (i < L ? c[i] : 0xee), "[lemma] the value read is the value written"); }
#else
    ASSERT(false, "[limit] objects of this size only through the component contracts");
#endif
}
/* reading arbitrary octets: success only when identifier, length and contents were all there */
static inline void post_safe(crefl_buf *b, gbuf *g, int64_t q, int kind, bool same)
{
    ASSERT(vf_inside(b, g), "[post] the cursor stays in the buffer");
    if (q != 0) { ASSERT(q < 0, "[post] failure is reported as a negative status"); return; }
#ifdef DER_STUBS
    dlog *d = &dl[0];
    COVER(d->nr == 3, "an accepted object");
    ASSERT(d->nr == 3 && d->r[0].kind == K_ID && d->r[1].kind == K_LEN && d->r[2].kind == kind, "[general] an object is read as identifier, length, contents");
    ASSERT(d->r[0].ok && d->r[1].ok && d->r[2].ok, "[post] an object is accepted only when all its parts are");
    ASSERT(d->r[0].p == 0 && d->r[1].p == d->r[0].n && d->r[2].p == d->r[1].p + d->r[1].n, "[post] identifier, length and contents follow each other");
    ASSERT(d->r[2].arg == d->r[1].v, "[post] the contents are read with the announced length");
    ASSERT(vf_pos(b, g) == d->r[2].p + d->r[2].n, "[post] the cursor is immediately after the object");
    ASSERT(same, "[post] the value is that of the contents");
#endif
    ASSERT(vf_frame(b, g, 0), "[frame] reading changes nothing");
}
#ifdef DER_STUBS
#define LV (dl[0].r[2].v)
#else
#define LV 0
#endif
#define SAFE(ent, KIND, DECL, CALL, same) ENTRY(ent) { crefl_buf b; gbuf g; MK(&b, &g); asn1_tag tag = (asn1_tag)(uint32_t)IN("tag"); DECL; int64_t q = (CALL); post_safe(&b, &g, q, KIND, same); }
//@ safe_der_boolean props=C15 fn=crefl_asn1_der_boolean_read
SAFE(safe_der_boolean, K_BOOL, bool v, crefl_asn1_der_boolean_read(&b, tag, &v), v == (bool)(LV & 1))
//@ safe_der_null props=C15 fn=crefl_asn1_der_null_read
SAFE(safe_der_null, K_NULL, , crefl_asn1_der_null_read(&b, tag), true)
//@ safe_der_u64 props=C15 fn=crefl_asn1_der_integer_u64_read
SAFE(safe_der_u64, K_U64, u64 v, crefl_asn1_der_integer_u64_read(&b, tag, &v), v == LV)
//@ safe_der_s64 props=C15 fn=crefl_asn1_der_integer_s64_read
SAFE(safe_der_s64, K_S64, s64 v, crefl_asn1_der_integer_s64_read(&b, tag, &v), (uint64_t)v == LV)
//@ safe_der_u64_byval props=C15 fn=crefl_asn1_der_integer_u64_read_byval
SAFE(safe_der_u64_byval, K_U64, u64_result v, (v = crefl_asn1_der_integer_u64_read_byval(&b, tag)).error, v.value == LV)
//@ safe_der_s64_byval props=C15 fn=crefl_asn1_der_integer_s64_read_byval
SAFE(safe_der_s64_byval, K_S64, s64_result v, (v = crefl_asn1_der_integer_s64_read_byval(&b, tag)).error, (uint64_t)v.value == LV)
//@ safe_der_real props=C15 fn=crefl_asn1_der_real_f64_read
SAFE(safe_der_real, K_REAL, double v, crefl_asn1_der_real_f64_read(&b, tag, &v), f64_bits(v) == LV)
//@ safe_der_real_byval props=C15 fn=crefl_asn1_der_real_f64_read_byval
SAFE(safe_der_real_byval, K_REAL, f64_result v, (v = crefl_asn1_der_real_f64_read_byval(&b, tag)).error, f64_bits(v.value) == LV)
//@ safe_der_oid props=C15,C11 fn=crefl_asn1_der_oid_read
SAFE(safe_der_oid, K_OID, asn1_oid v, crefl_asn1_der_oid_read(&b, tag, &v), v.count <= asn1_oid_comp_max)
#define COMMA ,
#ifdef DER_STUBS
#define OCTSAME (dl[0].r[2].ptr == dp && dl[0].r[2].room == room && v.count == dl[0].r[2].arg)
#else
#define OCTSAME true
#endif
#ifdef DER_STUBS
static u8 sdst;
#define SDST &sdst
#else
static u8 sdst[64];
#define SDST sdst
#endif
//@ safe_der_octets props=C15 fn=crefl_asn1_der_octets_read
SAFE(safe_der_octets, K_OCT, uint64_t room = IN("len_room") % 65; bool nul = IN("null") & 1; u8 *dp = nul ? (u8*)0 : (u8*)SDST; asn1_string v = { room COMMA dp }, crefl_asn1_der_octets_read(&b, tag, &v),
    v.str == dp && OCTSAME)

/* by-pointer and by-value variants on equal buffers */
static inline void same_bufs(crefl_buf *b, gbuf *g, crefl_buf *c, gbuf *h, int64_t r, int64_t q)
{
    ASSERT(r == q, "[post] both variants return the same status");
    ASSERT(vf_pos(b, g) == vf_pos(c, h), "[post] both variants leave the same cursor");
#ifdef DER_STUBS
    ASSERT(dl[0].nw == dl[1].nw, "[general] both variants write the same components");
    bool ok = true;
    for (int i = 0; i < DLN; i++) if (i < dl[0].nw) { lev *x = &dl[0].w[i], *y = &dl[1].w[i];
        ASSERT(x->kind == y->kind, "[general] both variants write the same components");
        ok = ok & (x->v == y->v) & (x->arg == y->arg) & (x->p == y->p) & (x->n == y->n) & (x->ok == y->ok); }
    ASSERT(ok, "[post] both variants write the same octets");
#else
    ASSERT(vf_same(b, g, c, h), "[post] both variants leave the same bytes");
#endif
}
#define TWW(ent, SETUP, BYPTR, BYVAL) ENTRY(ent) { crefl_buf b, c; gbuf g, h; MK(&b, &g); MKT(&c, &h, &g); asn1_tag tag = (asn1_tag)(uint32_t)IN("tag"); SETUP; \
    int64_t r = (BYPTR), q = (BYVAL); COVER(r == 0, "written"); same_bufs(&b, &g, &c, &h, r, q); }
#define TWR(ent, T, RT, SAME, BYPTR, BYVAL) ENTRY(ent) { crefl_buf b, c; gbuf g, h; MK(&b, &g); MKT(&c, &h, &g); asn1_tag tag = (asn1_tag)(uint32_t)IN("tag"); \
    T v = 0; int64_t r = (BYPTR); RT x = (BYVAL); same_bufs(&b, &g, &c, &h, r, x.error); COVER(r == 0, "accepted"); \
    if (r == 0) ASSERT(SAME, "[post] both variants return the same value"); }
//@ twin_der_u64_write props=C17 fn=crefl_asn1_der_integer_u64_write,crefl_asn1_der_integer_u64_write_byval
TWW(twin_der_u64_write, u64 v = IN("v"), crefl_asn1_der_integer_u64_write(&b, tag, &v), crefl_asn1_der_integer_u64_write_byval(&c, tag, v))
//@ twin_der_s64_write props=C17 fn=crefl_asn1_der_integer_s64_write,crefl_asn1_der_integer_s64_write_byval
TWW(twin_der_s64_write, s64 v = (s64)IN("v"), crefl_asn1_der_integer_s64_write(&b, tag, &v), crefl_asn1_der_integer_s64_write_byval(&c, tag, v))
//@ twin_der_real_write props=C17 fn=crefl_asn1_der_real_f64_write,crefl_asn1_der_real_f64_write_byval
TWW(twin_der_real_write, double v = f64_of(IN("u")), crefl_asn1_der_real_f64_write(&b, tag, &v), crefl_asn1_der_real_f64_write_byval(&c, tag, v))
//@ twin_der_u64_read props=C17 fn=crefl_asn1_der_integer_u64_read,crefl_asn1_der_integer_u64_read_byval
TWR(twin_der_u64_read, u64, u64_result, v == x.value, crefl_asn1_der_integer_u64_read(&b, tag, &v), crefl_asn1_der_integer_u64_read_byval(&c, tag))
//@ twin_der_s64_read props=C17 fn=crefl_asn1_der_integer_s64_read,crefl_asn1_der_integer_s64_read_byval
TWR(twin_der_s64_read, s64, s64_result, v == x.value, crefl_asn1_der_integer_s64_read(&b, tag, &v), crefl_asn1_der_integer_s64_read_byval(&c, tag))
//@ twin_der_real_read props=C17 fn=crefl_asn1_der_real_f64_read,crefl_asn1_der_real_f64_read_byval
TWR(twin_der_real_read, double, f64_result, f64_bits(v) == f64_bits(x.value), crefl_asn1_der_real_f64_read(&b, tag, &v), crefl_asn1_der_real_f64_read_byval(&c, tag))
