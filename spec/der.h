#pragma once
#include "real.h"
/*
 * The DER layer by the contracts of its components.  A ghost log records what each component
 * (identifier, length, contents) was asked to write or read and where; each component obeys the
 * contract enforced for it elsewhere:
 *   write: succeeds exactly when representable and it fits, writes n octets that encode v there;
 *          otherwise fails, cursor somewhere between its place and the end
 *   read : of octets that encode v: yields v and consumes them; of anything else: fails, or
 *          yields some value and consumes octets that are there; the same octets give the same
 */
#ifndef DLN
#define DLN 4
#endif
enum { K_TAG = 1, K_ID, K_LEN, K_BOOL, K_NULL, K_U64, K_S64, K_REAL, K_OID, K_OCT };
struct lev { int kind; uint64_t arg, v, p, n; bool ok; const void *ptr; uint64_t room; };
struct dlog { lev w[DLN], r[DLN]; int nw, nr; };
static dlog dl[2];
static inline int dl_of(const crefl_buf *b) { return vf_gb[0]->b == b ? 0 : 1; }

#if !defined(VF_NATIVE) && !defined(VF_GENERAL)
#define DER_STUBS 1
static inline bool dl_w(crefl_buf *b, int kind, uint64_t arg, uint64_t v, const void *ptr, bool repr, uint64_t n)
{
    gbuf *g = vf_ghost(b); uint64_t p = vf_pos(b, g); int me = dl_of(b); dlog *d = &dl[me];
    ASSERT(vf_inside(b, g), "[pre] cursor inside the buffer");
    ASSERT(d->nw < DLN, "[general] no more components than the format has"); ASSUME(d->nw < DLN);
    lev *l = &d->w[d->nw++]; l->kind = kind; l->arg = arg; l->v = v; l->ptr = ptr; l->p = p;
    l->ok = repr && vf_fits(g, p, n); l->n = n;
    if (!l->ok) {
        bool hit = false;
        for (int i = 0; i < DLN; i++) if (me == 1 && i < dl[0].nw) { lev *w = &dl[0].w[i];   /* same call, same result */
            if (!hit && !w->ok && w->kind == kind && w->p == p && w->arg == arg && w->v == v) { hit = true; l->n = w->n; } }
        if (!hit) { l->n = nd_u64(); ASSUME(vf_fits(g, p, l->n)); }
    }
    vf_setpos(b, g, p + l->n);
    return l->ok;
}
/* -> the read event */
static inline lev *dl_r(crefl_buf *b, int kind, uint64_t arg)
{
    gbuf *g = vf_ghost(b); uint64_t p = vf_pos(b, g); int me = dl_of(b); dlog *d = &dl[me];
    ASSERT(vf_inside(b, g), "[pre] cursor inside the buffer");
    ASSERT(d->nr < DLN, "[general] no more components than the format has"); ASSUME(d->nr < DLN);
    lev *l = &d->r[d->nr++]; l->kind = kind; l->arg = arg; l->p = p; l->ptr = 0; l->v = 0; l->room = 0;
    bool hit = false;
    for (int i = 0; i < DLN; i++) if (i < d->nw) { lev *w = &d->w[i];         /* octets written before */
        if (!hit && w->ok && w->kind == kind && w->p == p && (kind <= K_LEN || w->n == arg)) { hit = true; l->ok = true; l->v = w->v; l->n = w->n; l->ptr = w->ptr; } }
    for (int i = 0; i < DLN; i++) if (me == 1 && i < dl[0].nr) { lev *w = &dl[0].r[i];   /* same octets, same result */
        if (!hit && w->kind == kind && w->p == p && w->arg == arg) { hit = true; l->ok = w->ok; l->v = w->v; l->n = w->n; } }
    if (!hit) {
        uint64_t n = kind <= K_LEN ? nd_u64() : arg;
        l->ok = (nd_u64() & 1) && vf_fits(g, p, n); l->v = nd_u64();
        l->n = n;
        if (!l->ok) { l->n = nd_u64(); ASSUME(vf_fits(g, p, l->n)); }
        else {
            if (kind <= K_LEN) ASSUME(n >= 1 && n <= 9);
            if (kind == K_TAG) ASSUME(n <= 8 && l->v < (uint64_t)1 << 56);
            if (kind == K_NULL) ASSUME(arg == 0);
            if (kind == K_BOOL) ASSUME(arg == 1 && l->v < 2);
            if (kind == K_U64 || kind == K_S64) ASSUME(arg >= 1 && arg <= 8);
        }
    }
    vf_setpos(b, g, p + l->n);
    return l;
}
static inline uint64_t len_ident(uint64_t t) { return t < 31 ? 1 : 1 + digits7(t); }
static inline uint64_t len_length(uint64_t v) { return v < 128 ? 1 : 1 + octets8(v); }
static inline uint64_t len_real(uint64_t u) { enc e; enc_real(&e, u); return e.n; }
static inline bool oid_valid(const asn1_oid *o);
static inline uint64_t len_oid(const asn1_oid *o);
STUB int stub_tag_write(crefl_buf *b, u64 v) { return dl_w(b, K_TAG, 0, v, 0, v < (uint64_t)1 << 56, digits7(v)) ? 0 : -1; }
STUB int stub_tag_read(crefl_buf *b, u64 *v) { lev *l = dl_r(b, K_TAG, 0); *v = l->ok ? l->v : 0; return l->ok ? 0 : -1; }
STUB int stub_ident_write(crefl_buf *b, asn1_id id) { return dl_w(b, K_ID, 0, pack_id(id), 0, true, len_ident(id._identifier)) ? 0 : -1; }
STUB int stub_length_write(crefl_buf *b, u64 v) { return dl_w(b, K_LEN, 0, v, 0, true, len_length(v)) ? 0 : -1; }
STUB int stub_boolean_write(crefl_buf *b, size_t len, const bool *v) { return dl_w(b, K_BOOL, len, *v, 0, len == 1, 1) ? 0 : -1; }
STUB int stub_null_write(crefl_buf *b, size_t len) { return dl_w(b, K_NULL, len, 0, 0, len == 0, 0) ? 0 : -1; }
STUB int stub_u64_write(crefl_buf *b, size_t len, const u64 *v) { return dl_w(b, K_U64, len, *v, 0, len >= 1 && len <= 8, len) ? 0 : -1; }
STUB int stub_s64_write(crefl_buf *b, size_t len, const s64 *v) { return dl_w(b, K_S64, len, (uint64_t)*v, 0, len >= 1 && len <= 8, len) ? 0 : -1; }
STUB int stub_u64_write_byval(crefl_buf *b, size_t len, u64 v) { return dl_w(b, K_U64, len, v, 0, len >= 1 && len <= 8, len) ? 0 : -1; }
STUB int stub_s64_write_byval(crefl_buf *b, size_t len, s64 v) { return dl_w(b, K_S64, len, (uint64_t)v, 0, len >= 1 && len <= 8, len) ? 0 : -1; }
STUB int stub_real_write(crefl_buf *b, size_t len, const double *v) { return dl_w(b, K_REAL, len, f64_bits(*v), 0, true, len_real(f64_bits(*v))) ? 0 : -1; }
STUB int stub_real_write_byval(crefl_buf *b, size_t len, double v) { return dl_w(b, K_REAL, len, f64_bits(v), 0, true, len_real(f64_bits(v))) ? 0 : -1; }
STUB int stub_oid_write(crefl_buf *b, size_t len, const asn1_oid *o) { uint64_t n = oid_valid(o) ? len_oid(o) : nd_u64();
    return dl_w(b, K_OID, len, 0, o, oid_valid(o) || (nd_u64() & 1), n) ? 0 : -1; }
STUB int stub_octets_write(crefl_buf *b, size_t len, const asn1_string *s) { return dl_w(b, K_OCT, len, s->count, s->str, true, len) ? 0 : -1; }

STUB int stub_ident_read(crefl_buf *b, asn1_id *id) { lev *l = dl_r(b, K_ID, 0); if (!l->ok) return -1; sid s = unpack_id(l->v);
    id->_identifier = s.tag; id->_class = s.cls; id->_constructed = s.cons; return 0; }
STUB int stub_length_read(crefl_buf *b, u64 *v) { lev *l = dl_r(b, K_LEN, 0); *v = l->ok ? l->v : 0; return l->ok ? 0 : -1; }
STUB int stub_boolean_read(crefl_buf *b, size_t len, bool *v) { lev *l = dl_r(b, K_BOOL, len); *v = l->ok ? (bool)(l->v & 1) : false; return l->ok ? 0 : -1; }
STUB int stub_null_read(crefl_buf *b, size_t len) { lev *l = dl_r(b, K_NULL, len); return l->ok ? 0 : -1; }
STUB int stub_u64_read(crefl_buf *b, size_t len, u64 *v) { lev *l = dl_r(b, K_U64, len); *v = l->ok ? l->v : 0; return l->ok ? 0 : -1; }
STUB int stub_s64_read(crefl_buf *b, size_t len, s64 *v) { lev *l = dl_r(b, K_S64, len); *v = l->ok ? (s64)l->v : 0; return l->ok ? 0 : -1; }
STUB u64_result stub_u64_read_byval(crefl_buf *b, size_t len) { lev *l = dl_r(b, K_U64, len); return u64_result { l->ok ? l->v : 0, l->ok ? 0 : -1 }; }
STUB s64_result stub_s64_read_byval(crefl_buf *b, size_t len) { lev *l = dl_r(b, K_S64, len); return s64_result { l->ok ? (s64)l->v : 0, l->ok ? 0 : -1 }; }
STUB int stub_real_read(crefl_buf *b, size_t len, double *v) { lev *l = dl_r(b, K_REAL, len); *v = l->ok ? f64_of(l->v) : 0; return l->ok ? 0 : -1; }
STUB f64_result stub_real_read_byval(crefl_buf *b, size_t len) { lev *l = dl_r(b, K_REAL, len); return f64_result { l->ok ? f64_of(l->v) : 0, l->ok ? 0 : -1 }; }
STUB int stub_oid_read(crefl_buf *b, size_t len, asn1_oid *o)
{
    lev *l = dl_r(b, K_OID, len); o->count = 0; if (!l->ok) return -1;
    if (l->ptr && oid_valid((const asn1_oid*)l->ptr)) { *o = *(const asn1_oid*)l->ptr; return 0; }
    uint64_t c = nd_u64(); ASSUME(c <= asn1_oid_comp_max); o->count = c; return 0;
}
STUB int stub_octets_read(crefl_buf *b, size_t len, asn1_string *s) { lev *l = dl_r(b, K_OCT, len); if (!l->ok) return -1; l->ptr = s->str; l->room = s->count; s->count = len; return 0; }
#endif
static inline uint64_t oid_sub(const asn1_oid *o, uint64_t i) { return i == 0 && o->count > 1 ? o->oid[0] * 40 + o->oid[1] : i == 0 ? o->oid[0] : o->oid[i + 1]; }
static inline uint64_t oid_nsub(const asn1_oid *o) { return o->count > 1 ? o->count - 1 : o->count; }
/* the object identifiers the format can carry (8.19.4) */
static inline bool oid_valid(const asn1_oid *o)
{
    bool ok = o->count >= 2 && o->count <= asn1_oid_comp_max && (o->oid[0] < 2 ? o->oid[1] < 40 : o->oid[0] == 2 && o->oid[1] < ((uint64_t)1 << 56) - 80);
    for (int i = 2; i < asn1_oid_comp_max; i++) if ((uint64_t)i < o->count) ok = ok & (o->oid[i] < (uint64_t)1 << 56);
    return ok;
}
static inline uint64_t len_oid(const asn1_oid *o)
{
    uint64_t n = 0;
    for (uint64_t i = 0; i < 14; i++) if (i < oid_nsub(o)) n += digits7(oid_sub(o, i));
    return n;
}
static inline bool oid_eq(const asn1_oid *a, const asn1_oid *b)
{
    bool ok = a->count == b->count;
    for (int i = 0; i < asn1_oid_comp_max; i++) if ((uint64_t)i < a->count) ok = ok & (a->oid[i] == b->oid[i]);
    return ok;
}
