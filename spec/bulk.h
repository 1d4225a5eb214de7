#pragma once
#include "codec.h"
/* bulk transfers: whole objects of any size; the byte at an arbitrary position k is followed */
struct bulk { crefl_buf b; uint64_t size, off, len, slen, k, j; char *d, *s; uint8_t bk, sj, *cb, *cs; };
static inline void mkbulk(bulk *x)
{
    x->size = IN("size"); x->off = IN("off"); x->len = IN("len");
    ASSUME(x->size <= VF_MAXSZ && x->off <= x->size);
    /* the caller's own object has at least len bytes; when len is larger than what remains it is
     * not touched, so any object will do */
    x->slen = x->len <= VF_MAXSZ ? x->len : 0;
    x->d = (char*)malloc(x->size); x->s = (char*)malloc(x->slen);
    if (vf_native) { for (uint64_t i = 0; i < x->size; i++) x->d[i] = (char)(i * 31 + 7); for (uint64_t i = 0; i < x->slen; i++) x->s[i] = (char)(i * 13 + 5);
        x->cb = (uint8_t*)malloc(x->size + 1); x->cs = (uint8_t*)malloc(x->slen + 1); memcpy(x->cb, x->d, x->size); memcpy(x->cs, x->s, x->slen); }
    x->k = IN("k"); x->j = IN("j");
    if (x->k < x->size) x->bk = (uint8_t)x->d[x->k];
    if (x->j < x->slen) x->sj = (uint8_t)x->s[x->j];
    x->b.data = x->d; x->b.data_size = x->size; x->b.data_offset = x->off;
}
static inline bool bulk_fits(const bulk *x) { return x->len <= x->size - x->off; }
static inline void post_bulk(bulk *x, uint64_t r, bool fits, bool wr)
{
    ASSERT(r == (fits ? x->len : 0), "[post] returns the octets moved, or 0 when fewer remain");
    ASSERT(x->b.data == x->d && x->b.data_size == x->size && x->b.data_offset == x->off + r, "[post] cursor advances by the octets moved");
    if (!vf_native) {
        if (wr) {
            if (x->k < x->size) {
                if (fits && x->k >= x->off && x->k - x->off < x->len) { if (x->j == x->k - x->off) ASSERT((uint8_t)x->d[x->k] == x->sj, "[post] exactly the source octets are stored"); }
                else ASSERT((uint8_t)x->d[x->k] == x->bk, "[frame] no other octet of the buffer changes");
            }
            if (x->j < x->slen) ASSERT((uint8_t)x->s[x->j] == x->sj, "[frame] the source is not changed");
        } else {
            if (x->j < x->slen) {
                if (fits) { if (x->j < x->size - x->off && x->k == x->off + x->j) ASSERT((uint8_t)x->s[x->j] == x->bk, "[post] exactly the buffer octets are delivered"); }
                else ASSERT((uint8_t)x->s[x->j] == x->sj, "[frame] a refused read delivers nothing");
            }
            if (x->k < x->size) ASSERT((uint8_t)x->d[x->k] == x->bk, "[frame] reading changes no octet of the buffer");
        }
        return;
    }
    for (uint64_t i = 0; i < x->size; i++) { bool in = wr && fits && i >= x->off && i < x->off + x->len;
        ASSERT((uint8_t)x->d[i] == (in ? x->cs[i - x->off] : x->cb[i]), "[post] exactly the requested octets of the buffer change"); }
    for (uint64_t i = 0; i < x->slen; i++) ASSERT((uint8_t)x->s[i] == (!wr && fits ? x->cb[x->off + i] : x->cs[i]), "[post] exactly the requested octets are delivered");
}
