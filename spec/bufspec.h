#pragma once
#include "vf.h"
#include <crefl/model.h>
#include <crefl/buf.h>
#include <crefl/asn1.h>

#ifndef WIN
#define WIN 11
#endif

/* ghost state of a buffer: what it was at function entry, and where its cursor is now */
struct gbuf {
    uint64_t off, size;              /* cursor and size on entry (arbitrary) */
    uint64_t vis;                    /* visible bytes at the cursor: min(size - off, WIN) */
    uint64_t pos;                    /* ghost cursor, relative to off */
    uint8_t *base;                   /* the byte at the cursor */
    char *data;
    const crefl_buf *b;
    uint8_t w[WIN];                  /* bytes at the cursor on entry (0 beyond the end) */
    uint8_t pre[WIN];                /* verify: bytes before the cursor that share the object */
    uint8_t *mem;                    /* verify: the window object; base == mem + WIN - vis */
    uint8_t *copy;                   /* native only: whole-buffer copy */
    bool nomem;                      /* no window: only component contracts may touch the buffer */
    uint64_t avail() const { return size - off; }
};
#define VF_NGB 3
static gbuf *vf_gb[VF_NGB];
static int vf_ngb;

/*
 * Any buffer: any size up to 2^47, any cursor inside it, any content.
 * In the verifier only the WIN bytes at the cursor exist: data points so that the cursor falls on
 * mem[WIN - vis], the end of the object is the end of the buffer (or WIN bytes behind the
 * cursor), and any access elsewhere fails an obligation.  The verification of an entry is split
 * into the WIN+1 cases vis = 0, 1, ..., WIN, which together are all buffers.
 */
static inline void vf_mkbuf_case(crefl_buf *b, gbuf *g, uint64_t c)
{
    uint64_t size = IN("size"), off = IN("off");
    ASSUME(size <= VF_MAXSZ && off <= size);
    g->off = off; g->size = size; g->copy = 0; g->b = b; g->pos = 0; g->nomem = false;
    uint64_t vis = size - off < WIN ? size - off : WIN;
    if (!vf_native) { ASSUME(vis == c); vis = c; }
    g->vis = vis;
    for (int i = 0; i < WIN; i++) g->w[i] = 0;
    if (vf_native) {
        b->data = (char*)malloc(size);
        for (uint64_t i = 0; i < size; i++) b->data[i] = (char)(i * 37 + 11);
        g->base = (uint8_t*)b->data + off;
    } else {
        uint8_t *mem = (uint8_t*)malloc(WIN);
        g->mem = mem;
        g->base = mem + (WIN - vis);
        b->data = (char*)(g->base - off);
        for (int i = 0; i < WIN; i++) g->pre[i] = mem[i];
    }
    g->data = b->data;
    for (uint64_t i = 0; i < WIN; i++) if (i < vis) g->w[i] = vf_byte(g->base + i);
    if (vf_native) { g->copy = (uint8_t*)malloc(size + 1); memcpy(g->copy, b->data, size); }
    b->data_offset = off; b->data_size = size;
    if (!vf_native) vf_gb[vf_ngb++] = g;
}
static inline void vf_mkbuf(crefl_buf *b, gbuf *g)
{
    uint64_t c = vf_case();
    if (!vf_native) ASSERT(vf_ncases() == WIN + 1, "[limit] case split over the visible bytes is complete");
    vf_mkbuf_case(b, g, c);
}
/* any buffer, touched only through the contracts of its components (no bytes, all sizes at once) */
static inline void vf_mkghost(crefl_buf *b, gbuf *g)
{
    uint64_t size = IN("size"), off = IN("off");
    ASSUME(size <= VF_MAXSZ && off <= size);
    g->off = off; g->size = size; g->copy = 0; g->b = b; g->pos = 0; g->nomem = true; g->vis = 0;
    for (int i = 0; i < WIN; i++) g->w[i] = g->pre[i] = 0;
    static char none; g->data = &none; g->base = 0; g->mem = 0;
    b->data = g->data; b->data_offset = off; b->data_size = size;
    vf_gb[vf_ngb++] = g;
}
/* a second buffer in the same state: same size, cursor and bytes, other memory */
static inline void vf_mktwin(crefl_buf *b, gbuf *g, const gbuf *o)
{
    *g = *o; g->b = b; g->pos = 0;
    if (vf_native) {
        b->data = (char*)malloc(o->size); memcpy(b->data, o->copy, o->size);
        g->base = (uint8_t*)b->data + o->off;
        g->copy = (uint8_t*)malloc(o->size + 1); memcpy(g->copy, b->data, o->size);
    } else {
        uint8_t *mem = (uint8_t*)malloc(WIN);
        for (int i = 0; i < WIN; i++) mem[i] = o->pre[i];
        g->mem = mem; g->base = mem + (WIN - o->vis); b->data = (char*)(g->base - o->off);
    }
    g->data = b->data; b->data_offset = o->off; b->data_size = o->size;
    if (!vf_native) vf_gb[vf_ngb++] = g;
}
/* the two buffers are still in the same state */
static inline bool vf_same(const crefl_buf *b, const gbuf *g, const crefl_buf *c, const gbuf *h)
{
    if (b->data != g->data || b->data_size != g->size || c->data != h->data || c->data_size != h->size) return false;
    if (vf_native) return memcmp(b->data, c->data, g->size) == 0;
    bool ok = true;
    for (uint64_t i = 0; i < WIN; i++) ok = ok & (g->mem[i] == h->mem[i]);
    return ok;
}
static inline gbuf *vf_ghost(const crefl_buf *b)
{
    for (int i = 0; i < VF_NGB; i++) if (i < vf_ngb && vf_gb[i]->b == b) return vf_gb[i];
    return 0;
}
/* cursor relative to the cursor on entry.  When the primitives are used by contract the ghost
 * cursor is g->pos; code that moves the cursor by other means is verified again without the
 * primitive contracts (VF_GENERAL). */
#if defined(VF_NATIVE) || defined(VF_GENERAL)
static inline uint64_t vf_pos(const crefl_buf *b, const gbuf *g) { return b->data_offset - g->off; }
static inline bool vf_inside(const crefl_buf *b, const gbuf *g) { return b->data_offset >= g->off && b->data_offset <= g->size; }
#else
static inline uint64_t vf_pos(const crefl_buf *b, const gbuf *g)
{
    ASSERT(b->data_offset == g->off + g->pos, "[general] cursor moved only through the primitives");
    return g->pos;
}
static inline bool vf_inside(const crefl_buf *b, const gbuf *g)
{
    ASSERT(b->data_offset == g->off + g->pos, "[general] cursor moved only through the primitives");
    return g->pos <= g->vis || g->pos <= g->size - g->off;
}
#endif
static inline void vf_rewind(crefl_buf *b, gbuf *g) { g->pos = 0; b->data_offset = g->off; }

/* frame: the buffer object is the same, and no byte but [off, off+n) has changed */
static inline bool vf_frame(const crefl_buf *b, const gbuf *g, uint64_t n)
{
    if (b->data != g->data || b->data_size != g->size) return false;
    if (vf_native) {
        for (uint64_t i = 0; i < g->size; i++)
            if (!(i >= g->off && i < g->off + n) && (uint8_t)b->data[i] != g->copy[i]) return false;
        return true;
    }
    if (g->nomem) return true;
    bool ok = true;
    for (uint64_t i = 0; i < WIN; i++)
        if (i < WIN - g->vis || i - (WIN - g->vis) >= n) ok = ok & (g->mem[i] == g->pre[i]);
    return ok;
}
static inline uint64_t vf_min(uint64_t a, uint64_t b) { return a < b ? a : b; }
/* n bytes fit between the entry cursor plus p and the end */
static inline bool vf_fits(const gbuf *g, uint64_t p, uint64_t n)
{
    if (g->nomem) return p <= g->size - g->off && n <= g->size - g->off - p;
    if (g->vis < WIN) return p <= g->vis && n <= g->vis - p;
    if (p <= WIN && n <= WIN - p) return true;
    return p <= g->size - g->off && n <= g->size - g->off - p;
}

/* a specified encoding: ok = representable at all */
struct enc { uint8_t b[WIN]; uint64_t n; bool ok; };
/* a specified decoding of the bytes at the cursor */
struct dec { bool must_ok, must_fail; uint64_t v; uint64_t n; };

/* ---- write contract -------------------------------------------------------------------
 * fits  => success, cursor advanced by exactly e.n, exactly those octets, frame
 * !fits => failure, cursor still inside, nothing outside the next WIN bytes touched       */
static inline void post_write(const crefl_buf *b, const gbuf *g, int r, const enc *e)
{
    bool fits = e->ok && vf_fits(g, 0, e->n);
    ASSERT((r == 0) == fits, "[post] write succeeds exactly when the object is representable and fits");
    if (!fits) {
        ASSERT(r < 0, "[post] failure is reported as a negative status");
        ASSERT(vf_inside(b, g), "[post] failed write keeps the cursor in the buffer");
        ASSERT(vf_frame(b, g, g->vis), "[frame] failed write leaves everything before the cursor and behind the object alone");
        if (!e->ok) ASSERT(vf_pos(b, g) == 0 && vf_frame(b, g, 0), "[post] a value that is not representable is refused with nothing written");
    } else {
        ASSERT(vf_pos(b, g) == e->n, "[post] write advances the cursor by the encoded length");
        for (uint64_t i = 0; i < WIN; i++)
            if (i < e->n && i < g->vis) ASSERT(g->base[i] == e->b[i], "[post] octets written are the specified encoding");
        ASSERT(vf_frame(b, g, e->n), "[frame] write changes only the octets of the object");
    }
}
/* ---- read contract --------------------------------------------------------------------- */
static inline void post_read(const crefl_buf *b, const gbuf *g, int r, uint64_t v, const dec *x)
{
    if (x->must_ok) ASSERT(r == 0, "[post] a well-formed object is accepted");
    if (x->must_fail) ASSERT(r != 0, "[post] a malformed or truncated object is refused");
    if (r == 0) {
        ASSERT(v == x->v, "[post] decoded value is the specified value");
        ASSERT(vf_pos(b, g) == x->n, "[post] read consumes exactly the octets of the object");
    } else {
        ASSERT(r < 0, "[post] failure is reported as a negative status");
        ASSERT(vf_inside(b, g), "[post] failed read keeps the cursor in the buffer");
    }
    ASSERT(vf_frame(b, g, 0), "[frame] reading changes no byte of the buffer");
}

#ifndef VF_NATIVE
/* ---- contracts of the buffer primitives (enforced on the real ones in buf.cc) -----------
 * Used in place of the primitives when a caller is verified.  They work on the same memory;
 * the ghost cursor only saves the solver re-deriving  data + offset - entry offset.         */
static inline void vf_setpos(crefl_buf *b, gbuf *g, uint64_t p) { g->pos = p; b->data_offset = g->off + p; }
static inline uint8_t *vf_at(crefl_buf *b, gbuf *g, uint64_t p, uint64_t n)
{
    ASSERT(b->data == g->data && b->data_size == g->size, "[pre] buffer primitive on the buffer as it was");
    ASSERT(!g->nomem, "[general] buffer touched by other means than the component contracts");
    ASSERT(p <= g->vis && n <= g->vis - p, "[limit] access inside the verification window");
    ASSUME(p <= g->vis && n <= g->vis - p);
    return g->mem + (WIN - g->vis) + p;
}
STUB uint64_t stub_read_i8(crefl_buf *b, int8_t *v)
{
    gbuf *g = vf_ghost(b); uint64_t p = vf_pos(b, g);
    ASSERT(vf_inside(b, g), "[pre] cursor inside the buffer");
    if (!vf_fits(g, p, 1)) return 0;
    *v = *(int8_t*)vf_at(b, g, p, 1); vf_setpos(b, g, p + 1); return 1;
}
STUB uint64_t stub_write_i8(crefl_buf *b, int8_t v)
{
    gbuf *g = vf_ghost(b); uint64_t p = vf_pos(b, g);
    ASSERT(vf_inside(b, g), "[pre] cursor inside the buffer");
    if (!vf_fits(g, p, 1)) return 0;
    *vf_at(b, g, p, 1) = (uint8_t)v; vf_setpos(b, g, p + 1); return 1;
}
STUB uint64_t stub_read_unchecked_i8(crefl_buf *b, int8_t *v)
{
    gbuf *g = vf_ghost(b); uint64_t p = vf_pos(b, g);
    ASSERT(vf_inside(b, g) && vf_fits(g, p, 1), "[pre] room checked by the caller");
    *v = *(int8_t*)vf_at(b, g, p, 1); vf_setpos(b, g, p + 1); return 1;
}
STUB uint64_t stub_write_unchecked_i8(crefl_buf *b, int8_t v)
{
    gbuf *g = vf_ghost(b); uint64_t p = vf_pos(b, g);
    ASSERT(vf_inside(b, g) && vf_fits(g, p, 1), "[pre] room checked by the caller");
    *vf_at(b, g, p, 1) = (uint8_t)v; vf_setpos(b, g, p + 1); return 1;
}
STUB int stub_check_capacity(crefl_buf *b, uint64_t n)
{
    gbuf *g = vf_ghost(b); uint64_t p = vf_pos(b, g);
    ASSERT(vf_inside(b, g), "[pre] cursor inside the buffer");
    return vf_fits(g, p, n) ? 0 : -1;
}
static inline void vf_get(gbuf *g, crefl_buf *b, uint64_t p, char *d, uint64_t n)
{
    uint8_t *s = vf_at(b, g, p, n);
    for (uint64_t i = 0; i < WIN; i++) if (i < n) d[i] = (char)s[i];
    vf_setpos(b, g, p + n);
}
static inline void vf_put(gbuf *g, crefl_buf *b, uint64_t p, const char *s, uint64_t n)
{
    uint8_t *d = vf_at(b, g, p, n);
    for (uint64_t i = 0; i < WIN; i++) if (i < n) d[i] = (uint8_t)s[i];
    vf_setpos(b, g, p + n);
}
STUB uint64_t stub_read_bytes(crefl_buf *b, char *d, uint64_t n)
{
    gbuf *g = vf_ghost(b); uint64_t p = vf_pos(b, g);
    ASSERT(vf_inside(b, g), "[pre] cursor inside the buffer");
    if (!vf_fits(g, p, n)) return 0;
    vf_get(g, b, p, d, n); return n;
}
STUB uint64_t stub_write_bytes(crefl_buf *b, const char *s, uint64_t n)
{
    gbuf *g = vf_ghost(b); uint64_t p = vf_pos(b, g);
    ASSERT(vf_inside(b, g), "[pre] cursor inside the buffer");
    if (!vf_fits(g, p, n)) return 0;
    vf_put(g, b, p, s, n); return n;
}
STUB uint64_t stub_read_bytes_unchecked(crefl_buf *b, char *d, uint64_t n)
{
    gbuf *g = vf_ghost(b); uint64_t p = vf_pos(b, g);
    ASSERT(vf_inside(b, g) && vf_fits(g, p, n), "[pre] room checked by the caller");
    vf_get(g, b, p, d, n); return n;
}
STUB uint64_t stub_write_bytes_unchecked(crefl_buf *b, const char *s, uint64_t n)
{
    gbuf *g = vf_ghost(b); uint64_t p = vf_pos(b, g);
    ASSERT(vf_inside(b, g) && vf_fits(g, p, n), "[pre] room checked by the caller");
    vf_put(g, b, p, s, n); return n;
}
#endif
