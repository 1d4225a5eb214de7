#include "bulk.h"
#include <crefl/endian.h>
//@@ src=buf.cc cases=12
/* The buffer primitives themselves (the contracts assumed by every other group with prims=1):
 * the real inline functions of include/crefl/buf.h, any size, any cursor, any bytes. */
static inline void le_enc(enc *e, uint64_t v, uint64_t n)
{
    for (uint64_t i = 0; i < WIN; i++) e->b[i] = i < n ? (uint8_t)(v >> (8 * i)) : 0;
    e->n = n; e->ok = true;
}
/* checked write: all or nothing */
#define WR(ent, T, BITS, fn) ENTRY(ent) { crefl_buf b; gbuf g; vf_mkbuf(&b, &g); T v = (T)IN("v"); \
    uint64_t r = fn(&b, v); bool fits = vf_fits(&g, 0, BITS / 8); enc e; le_enc(&e, (uint64_t)v, BITS / 8); \
    ASSERT(r == (fits ? BITS / 8 : 0), "[post] returns the octets moved, or 0 when fewer remain"); \
    ASSERT(vf_pos(&b, &g) == r, "[post] cursor advances by the octets moved"); \
    if (fits) for (int i = 0; i < BITS / 8; i++) ASSERT(g.base[i] == e.b[i], "[post] little-endian octets"); \
    ASSERT(vf_frame(&b, &g, r), "[frame] nothing else changes"); }
#define RD(ent, T, BITS, fn) ENTRY(ent) { crefl_buf b; gbuf g; vf_mkbuf(&b, &g); T old = (T)IN("old"), v = old; \
    uint64_t r = fn(&b, &v); bool fits = vf_fits(&g, 0, BITS / 8); uint64_t x = 0; \
    for (int i = 0; i < BITS / 8; i++) x |= (uint64_t)g.w[i] << (8 * i); \
    ASSERT(r == (fits ? BITS / 8 : 0), "[post] returns the octets moved, or 0 when fewer remain"); \
    ASSERT(vf_pos(&b, &g) == r, "[post] cursor advances by the octets moved"); \
    ASSERT(v == (fits ? (T)x : old), "[post] little-endian value, or untouched"); \
    ASSERT(vf_frame(&b, &g, 0), "[frame] nothing else changes"); }
#define WRU(ent, T, BITS, fn) ENTRY(ent) { crefl_buf b; gbuf g; vf_mkbuf(&b, &g); T v = (T)IN("v"); ASSUME(vf_fits(&g, 0, BITS / 8)); \
    uint64_t r = fn(&b, v); enc e; le_enc(&e, (uint64_t)v, BITS / 8); \
    ASSERT(r == BITS / 8 && vf_pos(&b, &g) == r, "[post] cursor advances by the octets moved"); \
    for (int i = 0; i < BITS / 8; i++) ASSERT(g.base[i] == e.b[i], "[post] little-endian octets"); \
    ASSERT(vf_frame(&b, &g, r), "[frame] nothing else changes"); }
#define RDU(ent, T, BITS, fn) ENTRY(ent) { crefl_buf b; gbuf g; vf_mkbuf(&b, &g); T v = 0; ASSUME(vf_fits(&g, 0, BITS / 8)); \
    uint64_t r = fn(&b, &v); uint64_t x = 0; for (int i = 0; i < BITS / 8; i++) x |= (uint64_t)g.w[i] << (8 * i); \
    ASSERT(r == BITS / 8 && vf_pos(&b, &g) == r, "[post] cursor advances by the octets moved"); \
    ASSERT(v == (T)x, "[post] little-endian value"); \
    ASSERT(vf_frame(&b, &g, 0), "[frame] nothing else changes"); }

//@ buf_write_i8 props=C18,C16
WR(buf_write_i8, int8_t, 8, crefl_buf_write_i8)
//@ buf_write_i16 props=C18
WR(buf_write_i16, int16_t, 16, crefl_buf_write_i16)
//@ buf_write_i32 props=C18
WR(buf_write_i32, int32_t, 32, crefl_buf_write_i32)
//@ buf_write_i64 props=C18,C16
WR(buf_write_i64, int64_t, 64, crefl_buf_write_i64)
//@ buf_read_i8 props=C18,C15
RD(buf_read_i8, int8_t, 8, crefl_buf_read_i8)
//@ buf_read_i16 props=C18
RD(buf_read_i16, int16_t, 16, crefl_buf_read_i16)
//@ buf_read_i32 props=C18
RD(buf_read_i32, int32_t, 32, crefl_buf_read_i32)
//@ buf_read_i64 props=C18,C15
RD(buf_read_i64, int64_t, 64, crefl_buf_read_i64)
//@ buf_write_unchecked_i8 props=C18,C16
WRU(buf_write_unchecked_i8, int8_t, 8, crefl_buf_write_unchecked_i8)
//@ buf_write_unchecked_i16 props=C18
WRU(buf_write_unchecked_i16, int16_t, 16, crefl_buf_write_unchecked_i16)
//@ buf_write_unchecked_i32 props=C18
WRU(buf_write_unchecked_i32, int32_t, 32, crefl_buf_write_unchecked_i32)
//@ buf_write_unchecked_i64 props=C18
WRU(buf_write_unchecked_i64, int64_t, 64, crefl_buf_write_unchecked_i64)
//@ buf_read_unchecked_i8 props=C18,C15
RDU(buf_read_unchecked_i8, int8_t, 8, crefl_buf_read_unchecked_i8)
//@ buf_read_unchecked_i16 props=C18
RDU(buf_read_unchecked_i16, int16_t, 16, crefl_buf_read_unchecked_i16)
//@ buf_read_unchecked_i32 props=C18
RDU(buf_read_unchecked_i32, int32_t, 32, crefl_buf_read_unchecked_i32)
//@ buf_read_unchecked_i64 props=C18
RDU(buf_read_unchecked_i64, int64_t, 64, crefl_buf_read_unchecked_i64)

//@ buf_check_capacity props=C18,C16 cases=1 fn=crefl_buf_check_capacity
ENTRY(buf_check_capacity)
{
    crefl_buf b = { 0 }; b.data_size = IN("size"); b.data_offset = IN("off"); uint64_t len = IN("len");
    uint64_t size = b.data_size, off = b.data_offset;
    int r = crefl_buf_check_capacity(&b, len);
    bool fits = off <= size && len <= size - off;
    ASSERT(fits ? r == 0 : r < 0, "[post] tells whether that many octets remain, for every length");
    ASSERT(b.data == 0 && b.data_size == size && b.data_offset == off, "[frame] the buffer is left as it was");
}

//@ buf_write_bytes props=C18,C16 cases=1 fn=crefl_buf_write_bytes
ENTRY(buf_write_bytes) { bulk x; mkbulk(&x); bool f = bulk_fits(&x); post_bulk(&x, crefl_buf_write_bytes(&x.b, x.s, x.len), f, true); }
//@ buf_read_bytes props=C18,C15 cases=1 fn=crefl_buf_read_bytes
ENTRY(buf_read_bytes) { bulk x; mkbulk(&x); bool f = bulk_fits(&x); post_bulk(&x, crefl_buf_read_bytes(&x.b, x.s, x.len), f, false); }
//@ buf_write_bytes_unchecked props=C18,C16 cases=1 fn=crefl_buf_write_bytes_unchecked
ENTRY(buf_write_bytes_unchecked) { bulk x; mkbulk(&x); ASSUME(bulk_fits(&x)); post_bulk(&x, crefl_buf_write_bytes_unchecked(&x.b, x.s, x.len), true, true); }
//@ buf_read_bytes_unchecked props=C18,C15 cases=1 fn=crefl_buf_read_bytes_unchecked
ENTRY(buf_read_bytes_unchecked) { bulk x; mkbulk(&x); ASSUME(bulk_fits(&x)); post_bulk(&x, crefl_buf_read_bytes_unchecked(&x.b, x.s, x.len), true, false); }

//@ buf_cursor props=C18 cases=1 fn=crefl_buf_remaining,crefl_buf_reset,crefl_buf_seek,crefl_buf_data,crefl_buf_offset
ENTRY(buf_cursor)
{
    uint64_t size = IN("size"), off = IN("off"), to = IN("len"); ASSUME(size <= VF_MAXSZ && off <= size && to <= size);
    char *d = (char*)malloc(size); crefl_buf b = { d, off, size };
    crefl_span s = crefl_buf_remaining(&b);
    ASSERT(s.data == d + off && s.length == size - off, "[post] remaining describes the rest of the buffer");
    ASSERT(crefl_buf_data(&b) == d && crefl_buf_offset(&b) == off, "[post] data and offset are the stored ones");
    ASSERT(b.data == d && b.data_offset == off && b.data_size == size, "[frame] queries change nothing");
    crefl_buf_seek(&b, to);
    ASSERT(b.data == d && b.data_offset == to && b.data_size == size, "[post] seek moves the cursor only");
    s = crefl_buf_remaining(&b);
    ASSERT(s.data == d + to && s.length == size - to, "[post] remaining after a seek describes the rest of the buffer");
    crefl_buf_reset(&b);
    ASSERT(b.data == d && b.data_offset == 0 && b.data_size == size, "[post] reset moves the cursor to the start");
}
//@ buf_new props=C18 cases=1 fn=crefl_buf_new,crefl_buf_destroy
ENTRY(buf_new)
{
    uint64_t size = IN("size"), k = IN("k"); ASSUME(size <= (vf_native ? 100000 : VF_MAXSZ));
    crefl_buf *b = crefl_buf_new(size);
    ASSERT(b->data_offset == 0 && b->data_size == size, "[post] a new buffer is empty and has the requested capacity");
    if (k < size) ASSERT(b->data[k] == 0, "[post] a new buffer is zeroed");
    if (vf_native) for (uint64_t i = 0; i < size; i++) ASSERT(b->data[i] == 0, "[post] a new buffer is zeroed");
    crefl_buf_destroy(b);
}
