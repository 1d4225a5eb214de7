#pragma once
#include "codec.h"
/* ASN.1 REAL (X.690 8.5) - exact arithmetic on the IEEE 754 fields, written from the standards */
static inline uint64_t f64_bits(double v) { uint64_t u; memcpy(&u, &v, 8); return u; }
static inline double f64_of(uint64_t u) { double v; memcpy(&v, &u, 8); return v; }
static inline bool f64_isnan(uint64_t u) { return (u & ~(1ULL << 63)) > 0x7ffULL << 52; }

struct fnum { uint64_t m; int64_t e; };              /* value = m * 2^e, m odd */
static inline fnum f64_odd(uint64_t u)               /* of a finite nonzero double */
{
    uint64_t ex = u >> 52 & 0x7ff, fr = u & ((1ULL << 52) - 1);
    fnum r = { ex ? fr | 1ULL << 52 : fr, ex ? (int64_t)ex - 1075 : -1074 };
    for (int s = 32; s >= 1; s >>= 1)
        if ((r.m & ((1ULL << s) - 1)) == 0) { r.m >>= s; r.e += s; }
    return r;
}
static inline void enc_real(enc *e, uint64_t u)
{
    uint64_t mag = u & ~(1ULL << 63); bool sg = u >> 63;
    for (uint64_t i = 0; i < WIN; i++) e->b[i] = 0;
    e->ok = true; e->n = 1;
    if (mag > 0x7ffULL << 52) { e->b[0] = 0x42; return; }                     /* NaN       */
    if (mag == 0x7ffULL << 52) { e->b[0] = sg ? 0x41 : 0x40; return; }        /* +-infinity */
    if (mag == 0 && sg) { e->b[0] = 0x43; return; }                           /* minus zero */
    if (mag == 0) { e->b[0] = 0x80; e->n = 3; return; }                       /* 0 * 2^0    */
    fnum f = f64_odd(u);
    uint64_t el = octets_s(f.e), fl = octets8(f.m);
    e->b[0] = (uint8_t)(0x80 | (sg ? 0x40 : 0) | (el - 1));
    for (uint64_t i = 0; i < 2; i++) if (i < el) e->b[1 + i] = (uint8_t)((uint64_t)f.e >> (8 * (el - 1 - i)));
    for (uint64_t i = 0; i < 7; i++) if (i < fl) {
        uint8_t x = (uint8_t)(f.m >> (8 * (fl - 1 - i)));
        if (el == 1) e->b[2 + i] = x; else e->b[3 + i] = x;
    }
    e->n = 1 + el + fl;
}
/* decoding of contents of length len; anyval: accepted or not, value not specified */
struct decr { dec d; bool anyval, anysign; };
static inline void dec_real(decr *x, const uint8_t *w, uint64_t avail, uint64_t len)
{
    dec *d = &x->d; x->anyval = x->anysign = false;
    d->v = 0; d->n = len; d->must_ok = false; d->must_fail = true;
    if (len == 0) { d->must_ok = true; d->must_fail = false; return; }
    if (avail < 1) return;
    uint8_t b = w[0];
    if ((b & 0xc0) == 0x40) {
        if (len != 1 || b > 0x43) return;
        d->v = b == 0x40 ? 0x7ffULL << 52 : b == 0x41 ? 0xfffULL << 52 : b == 0x42 ? 0x7ff8ULL << 48 : 1ULL << 63;
        d->must_ok = true; d->must_fail = false; return;
    }
    if ((b & 0x80) == 0 || (b & 0x3c) || (b & 3) > 1) return;    /* decimal, base 8/16, scale, long exponents */
    uint64_t el = 1 + (b & 3);
    if (len < 2 + el || len > 9 + el || len > avail) return;
    uint64_t fl = len - 1 - el, f = 0;
    int64_t e = el == 1 ? (int8_t)w[1] : (int16_t)(w[1] << 8 | w[2]);
    for (uint64_t i = 0; i < 8; i++) if (i < fl) f = f << 8 | (el == 1 ? w[2 + i] : w[3 + i]);
    d->must_fail = false;
    if (f == 0) { d->must_ok = true; x->anysign = true; return; }
    int lz = 0;
    for (int s = 32; s >= 1; s >>= 1) if (!(f >> (64 - s))) { f <<= s; lz += s; }
    int64_t E = e + 63 - lz;                          /* value = (f / 2^63) * 2^E, 1 <= f/2^63 < 2 */
    if (E > 1023) { d->must_fail = true; return; }
    uint64_t sg = (uint64_t)(b >> 6 & 1) << 63;
    if (E >= -1022) {
        if (f & 0x7ff) { x->anyval = true; return; }  /* more than 53 significant bits */
        d->v = sg | (uint64_t)(E + 1023) << 52 | (f << 1) >> 12;
        d->must_ok = true; return;
    }
    if (E < -1074) { x->anyval = true; return; }      /* below the smallest subnormal */
    uint64_t sh = (uint64_t)(63 - (E + 1074));        /* 12 .. 63 */
    if (f & ((1ULL << sh) - 1)) { x->anyval = true; return; }
    d->v = sg | f >> sh; d->must_ok = true;
}
static inline void post_read_real(const crefl_buf *b, gbuf *g, int r, double v, const decr *x)
{
    uint64_t u = f64_bits(v);
    if (r == 0) {
        if (x->d.must_ok && f64_isnan(x->d.v)) ASSERT(f64_isnan(u), "[post] NaN decodes to a NaN");
        else if (x->anysign) ASSERT(u << 1 == 0, "[post] zero mantissa decodes to zero");
        else if (!x->anyval) ASSERT(u == x->d.v, "[post] decoded double is exactly the encoded number");
    }
    post_read(b, g, r, x->d.v, &x->d);
}
