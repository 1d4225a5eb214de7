#pragma once
#include "bufspec.h"
/* The encodings, written from X.690 / LEB128 / the documented VLU format - not from the code. */

/* ---- base-128 big-endian (X.690 8.1.2.4.2, 8.19.2): at most 8 digits ------------------- */
static inline uint64_t digits7(uint64_t v) { uint64_t n = 1; while (n < 10 && (v >> (7 * n))) n++; return n; }
static inline uint64_t octets8(uint64_t v) { uint64_t n = 1; while (n < 8 && (v >> (8 * n))) n++; return n; }
/* octets of the shortest two's complement form */
static inline uint64_t octets_s(int64_t v)
{
    uint64_t n = 1;
    while (n < 8 && ((v >> (8 * n - 1)) != 0 && (v >> (8 * n - 1)) != -1)) n++;
    return n;
}
static inline void enc_tag(enc *e, uint64_t v)
{
    e->ok = v < ((uint64_t)1 << 56); e->n = digits7(v);
    for (uint64_t i = 0; i < WIN; i++) e->b[i] = 0;
    if (!e->ok) return;
    for (uint64_t i = 0; i < 8; i++) if (i < e->n)
        e->b[i] = (uint8_t)(((v >> (7 * (e->n - 1 - i))) & 0x7f) | (i + 1 < e->n ? 0x80 : 0));
}
static inline void dec_tag(dec *x, const uint8_t *w, uint64_t avail)
{
    uint64_t v = 0, n = 0; bool done = false;
    for (uint64_t i = 0; i < 8; i++) if (!done && i < avail) {
        v = (v << 7) | (w[i] & 0x7f); n++;
        if (!(w[i] & 0x80)) done = true;
    }
    x->v = v; x->n = n;
    x->must_fail = !done;
    x->must_ok = done && !(n > 1 && w[0] == 0x80);     /* no leading zero digit */
}
/* ---- identifier (X.690 8.1.2) ---------------------------------------------------------- */
struct sid { uint64_t tag; uint8_t cls; bool cons; };
static inline void enc_ident(enc *e, sid s)
{
    e->ok = s.tag < ((uint64_t)1 << 56);
    for (uint64_t i = 0; i < WIN; i++) e->b[i] = 0;
    e->b[0] = (uint8_t)(s.cls << 6 | (s.cons ? 0x20 : 0));
    if (s.tag < 31) { e->b[0] |= (uint8_t)s.tag; e->n = 1; return; }
    e->b[0] |= 31;
    enc t; enc_tag(&t, s.tag);
    for (uint64_t i = 0; i < 9; i++) e->b[i + 1] = t.b[i];
    e->n = 1 + t.n;
}
static inline uint64_t pack_id(sid s) { return s.tag | (uint64_t)s.cons << 56 | (uint64_t)s.cls << 57; }
static inline uint64_t pack_id(asn1_id i) { return (uint64_t)i._identifier | (uint64_t)i._constructed << 56 | (uint64_t)i._class << 57; }
static inline sid unpack_id(uint64_t v) { sid s = { v & (((uint64_t)1 << 56) - 1), (uint8_t)(v >> 57 & 3), (bool)(v >> 56 & 1) }; return s; }
static inline void dec_ident(dec *x, const uint8_t *w, uint64_t avail)
{
    sid s = { (uint64_t)(w[0] & 31), (uint8_t)(w[0] >> 6), (w[0] & 0x20) != 0 };
    x->n = 1; x->must_ok = avail >= 1; x->must_fail = avail < 1;
    if (avail >= 1 && s.tag == 31) {
        dec t; dec_tag(&t, w + 1, avail - 1);
        x->n = 1 + t.n; s.tag = t.v;
        x->must_fail = t.must_fail;
        x->must_ok = t.must_ok && s.tag >= 31;
    }
    x->v = pack_id(s);
}
/* ---- definite length (X.690 8.1.3, minimal as in 10.1) --------------------------------- */
static inline void enc_length(enc *e, uint64_t v)
{
    e->ok = true;
    for (uint64_t i = 0; i < WIN; i++) e->b[i] = 0;
    if (v < 128) { e->b[0] = (uint8_t)v; e->n = 1; return; }
    uint64_t m = octets8(v);
    e->b[0] = (uint8_t)(0x80 | m); e->n = 1 + m;
    for (uint64_t i = 0; i < 8; i++) if (i < m) e->b[1 + i] = (uint8_t)(v >> (8 * (m - 1 - i)));
}
static inline void dec_length(dec *x, const uint8_t *w, uint64_t avail)
{
    x->v = 0; x->n = 1; x->must_ok = false; x->must_fail = true;
    if (avail < 1) return;
    if (w[0] < 128) { x->v = w[0]; x->must_ok = true; x->must_fail = false; return; }
    uint64_t m = w[0] & 0x7f;
    if (m == 0 || m > 8 || avail - 1 < m) return;      /* indefinite, too long, truncated */
    for (uint64_t i = 0; i < 8; i++) if (i < m) x->v = x->v << 8 | w[1 + i];
    x->n = 1 + m; x->must_fail = false;
    x->must_ok = x->v >= 128 && octets8(x->v) == m;    /* minimal form */
}
/* ---- integer contents ------------------------------------------------------------------ */
static inline void enc_int(enc *e, uint64_t v, uint64_t len, bool le)
{
    e->ok = len >= 1 && len <= 8; e->n = e->ok ? len : 0;
    for (uint64_t i = 0; i < WIN; i++) e->b[i] = 0;
    for (uint64_t i = 0; i < 8; i++) if (i < e->n) e->b[i] = (uint8_t)(v >> (8 * (le ? i : e->n - 1 - i)));
}
static inline void dec_int(dec *x, const uint8_t *w, uint64_t avail, uint64_t len, bool le, bool sg)
{
    x->v = 0; x->n = len; x->must_ok = len >= 1 && len <= 8 && len <= avail; x->must_fail = !x->must_ok;
    if (!x->must_ok) return;
    for (uint64_t i = 0; i < 8; i++) if (i < len) x->v |= (uint64_t)w[i] << (8 * (le ? i : len - 1 - i));
    if (sg && len < 8 && (x->v >> (8 * len - 1) & 1)) x->v |= ~(uint64_t)0 << (8 * len);
}
/* ---- LEB128 ---------------------------------------------------------------------------- */
static inline void enc_leb(enc *e, uint64_t v)
{
    e->ok = v < ((uint64_t)1 << 56); e->n = digits7(v);
    for (uint64_t i = 0; i < WIN; i++) e->b[i] = 0;
    if (!e->ok) return;
    for (uint64_t i = 0; i < 8; i++) if (i < e->n)
        e->b[i] = (uint8_t)(((v >> (7 * i)) & 0x7f) | (i + 1 < e->n ? 0x80 : 0));
}
static inline void dec_leb(dec *x, const uint8_t *w, uint64_t avail)
{
    uint64_t v = 0, n = 0; bool done = false; uint8_t last = 0;
    for (uint64_t i = 0; i < 8; i++) if (!done && i < avail) {
        v |= (uint64_t)(w[i] & 0x7f) << (7 * i); n++; last = w[i];
        if (!(w[i] & 0x80)) done = true;
    }
    x->v = v; x->n = n; x->must_fail = !done;
    x->must_ok = done && !(n > 1 && last == 0);
}
/* ---- VLU: n-1 low one bits, a zero bit, then 7n payload bits, little-endian ------------- */
static inline void enc_vlu(enc *e, uint64_t v)
{
    e->ok = v < ((uint64_t)1 << 56); e->n = digits7(v);
    for (uint64_t i = 0; i < WIN; i++) e->b[i] = 0;
    if (!e->ok) return;
    uint64_t x = v << e->n | ((((uint64_t)1) << (e->n - 1)) - 1);
    for (uint64_t i = 0; i < 8; i++) if (i < e->n) e->b[i] = (uint8_t)(x >> (8 * i));
}
static inline void dec_vlu(dec *x, const uint8_t *w, uint64_t avail)
{
    uint64_t n = 1, v = 0;
    while (n < 9 && (w[0] >> (n - 1) & 1)) n++;
    x->n = n; x->v = 0;
    x->must_fail = avail < 1 || n > 8 || avail < n;
    x->must_ok = false;
    if (x->must_fail) return;
    for (uint64_t i = 0; i < 8; i++) if (i < n) v |= (uint64_t)w[i] << (8 * i);
    x->v = v >> n;
    x->must_ok = digits7(x->v) == n;
}
