#include "db.h"
#include <crefl/db.h>
//@@ src=db.cc,model.cc,types.cc unwind=66 gunwind=122 objbits=10 track=1 gbound=tables_of_at_most_4_records_and_5_name_bytes
/*
 * Memory images.  Tables and images have any size; one arbitrary record (K), one arbitrary name
 * byte (M) and one arbitrary byte or record of the image are followed, the header is kept.
 */
#ifdef VF_BOUNDED
#define TMAX ((uint64_t)4)
#define NMAX ((uint64_t)5)
#define IMAX ((uint64_t)120)
#define NBUILTIN 1
#define NNAMES 1
#else
#define NBUILTIN 22
#define NNAMES (nd_u64() % 4096 + 1)
#ifdef VF_NATIVE
#define TMAX ((uint64_t)40)
#define NMAX ((uint64_t)60)
#define IMAX ((uint64_t)1600)
#else
#define TMAX ((uint64_t)1 << 31)
#define NMAX ((uint64_t)1 << 32)
#define IMAX ((uint64_t)1 << 36)
#endif
#endif
static uint64_t in_mod(const char *, uint64_t v, uint64_t lo, uint64_t hi) { if (vf_native) v = lo + v % (hi - lo + 1); ASSUME(v >= lo && v <= hi); return v; }
#define RANGE(n, lo, hi) in_mod(n, IN(n), lo, hi)
static uint64_t K, M, B; static decl_node R0; static char C0;
#ifdef DB_GHOST
static char nm_st; static uint8_t img_st, hdr_st[20];
#endif
static inline uint8_t node_byte(const decl_node *n, uint64_t i)
{
    uint64_t w = i < 4 ? n->_tag : i < 8 ? n->_props : i < 12 ? n->_name : i < 16 ? n->_next : i < 20 ? n->_link : i < 24 ? n->_attr : 0;
    return i < 24 ? (uint8_t)(w >> (8 * (i % 4))) : (uint8_t)(n->_quantity >> (8 * (i - 24)));
}
static inline decl_node any_node()
{
    decl_node r; r._tag = (decl_tag)IN("u"); r._props = (decl_set)IN("u"); r._name = (decl_id)IN("u"); r._next = (decl_id)IN("u"); r._link = (decl_id)IN("u"); r._attr = (decl_id)IN("u"); r._quantity = IN("q");
    return r;
}
static inline uint32_t le32(const uint8_t *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static const uint8_t MAGIC[8] = { 'c', 'r', 'e', 'f', 'l', '0', '0', '0' };
//@ image_write props=C20 fn=crefl_db_write_mem,crefl_db_size
ENTRY(image_write)
{
#ifdef VF_NATIVE
    uint64_t big = IN("small") % 32 == 0; uint64_t TM = big ? 70000 : TMAX, NM = big ? 70000 : NMAX, IM = big ? 2400000 : IMAX;
#else
    uint64_t TM = TMAX, NM = NMAX, IM = IMAX;
#endif
    DB.decl_size = RANGE("n_ds", 1, TM); DB.decl_offset = RANGE("n_do", 1, DB.decl_size); DB.decl_builtin = RANGE("n_db", 1, DB.decl_offset);
    DB.name_size = RANGE("n_ns", 1, NM - 1); DB.name_offset = RANGE("n_no", 1, DB.name_size); DB.name_builtin = RANGE("n_nb", 1, DB.name_offset);
    DB.root_element = (decl_id)IN("u");
    uint64_t out = RANGE("n_out", 0, IM), cnt = DB.decl_offset - DB.decl_builtin, nsz = DB.name_offset - DB.name_builtin, need = 20 + 32 * cnt + nsz;
    if (vf_native && IN("small") % 4) out = need + IN("small") % 3 - 1;
    B = RANGE("n_b", 20, IM); uint8_t b0 = (uint8_t)IN("byte");
    K = (B - 20) / 32 + DB.decl_builtin; M = B - 20 - 32 * cnt + DB.name_builtin;
    bool isrec = B < 20 + 32 * cnt, isname = !isrec && B < need;
    R0 = any_node(); C0 = (char)IN("byte");
#ifdef DB_GHOST
    db_t0 = R0; nm_st = C0; img_st = b0; for (int i = 0; i < 20; i++) hdr_st[i] = (uint8_t)nd_u64();
    DB.decl = (decl_node*)__vf_track(DB.decl_size * 32, 32, K, &db_t0);
    DB.name = (char*)__vf_track(DB.name_size, 1, isname ? M : (uint64_t)1 << 40, &nm_st);
    uint8_t *img = (uint8_t*)__vf_track2(out, 1, B, &img_st, 20, hdr_st), *hd = hdr_st;
#else
    DB.decl = (decl_node*)malloc(TMAX * 32); DB.name = (char*)malloc(NMAX); memset((void*)DB.decl, 0, TMAX * 32); memset(DB.name, 0, NMAX);
    if (isrec) DB.decl[K] = R0;
    if (isname) DB.name[M] = C0;
    uint8_t *img = (uint8_t*)malloc(vf_native ? out : IMAX), *hd = img; memset(img, 0x5a, vf_native ? out : IMAX); if (B < out) img[B] = b0;
#endif
    decl_db d0 = DB;
    ASSERT(crefl_db_size(&DB) == need, "[post] the predicted size");
    int r = crefl_db_write_mem(&DB, img, out);
    ASSERT(DB.name == d0.name && DB.name_builtin == d0.name_builtin && DB.name_offset == d0.name_offset && DB.name_size == d0.name_size && DB.decl == d0.decl && DB.decl_builtin == d0.decl_builtin && DB.decl_offset == d0.decl_offset && DB.decl_size == d0.decl_size && DB.root_element == d0.root_element, "[frame] the database is unchanged");
    ASSERT((r == 0) == (out >= need), "[post] written exactly when there is room");
#ifdef DB_GHOST
    ASSERT(node_eq(&db_t0, &R0) && nm_st == C0, "[frame] the tables are unchanged");
    uint8_t b = img_st; bool there = B < out;
    if (r) ASSERT(!__vf_written(), "[post] refused without touching the destination");
#else
    if (isrec) ASSERT(node_eq(DB.decl + K, &R0), "[frame] the tables are unchanged");
    if (isname) ASSERT(DB.name[M] == C0, "[frame] the tables are unchanged");
    bool there = B < out; uint8_t b = there ? img[B] : 0;
    if (r) for (uint64_t i = 0; i < 20; i++) if (i < out) ASSERT(img[i] == 0x5a, "[post] refused without touching the destination");
#endif
    if (r) { if (there) ASSERT(b == b0, "[post] refused without touching the destination"); return; }
    for (int i = 0; i < 8; i++) ASSERT(hd[i] == MAGIC[i], "[post] the image starts with the magic");
    ASSERT(le32(hd + 8) == cnt && le32(hd + 12) == nsz && le32(hd + 16) == DB.root_element, "[post] counts and root element");
    if (isrec) ASSERT(b == node_byte(&R0, (B - 20) % 32), "[post] the records follow in order");
    else if (isname) ASSERT(b == (uint8_t)C0, "[post] the names follow in order");
    else if (there) ASSERT(b == b0, "[post] the image has exactly the predicted size");
}
/* ---- reading ------------------------------------------------------------------------------ */
static decl_db D1; static decl_node R1; static char C1; static bool DEF, LINKS; static uint64_t LASTI;
static inline bool rec_ok(const decl_node *n, const decl_db *d) { return n->_link < d->decl_offset && n->_next < d->decl_offset && n->_attr < d->decl_offset && n->_name < d->name_offset; }
#ifndef VF_NATIVE
/* contract of crefl_db_defaults (alloc_defaults, alloc_decl, alloc_name): 22 records without
 * references are added at the end and their names; both tables may move and grow */
STUB void stub_defaults(decl_db *db)
{
    ASSERT(db == &DB && !DEF, "[general] the database of the call");
    DB.decl_offset += NBUILTIN; DB.name_offset += NNAMES; DB.decl_builtin = DB.decl_offset; DB.name_builtin = DB.name_offset;
    decl_node r = any_node(); char c = (char)nd_u64(); bool newrec = K >= DB.decl_offset - NBUILTIN && K < DB.decl_offset;
    ASSUME(r._tag == _decl_intrinsic && !r._next && !r._link && !r._attr && r._name < DB.name_offset);
#ifdef DB_GHOST
    DB.decl_size = nd_u64(); DB.name_size = nd_u64();
    ASSUME(DB.decl_size >= DB.decl_offset && DB.decl_size >= D1.decl_size && DB.name_size >= D1.name_size && DB.decl_size < (uint64_t)1 << 33 && DB.name_size >= DB.name_offset && DB.name_size < (uint64_t)1 << 33);
    if (newrec) db_t0 = r;
    if (M >= D1.name_offset && M < DB.name_offset) nm_st = c;
    if (M == DB.name_offset - 1) nm_st = 0;
    DB.decl = (decl_node*)realloc(DB.decl, DB.decl_size * 32); DB.name = (char*)realloc(DB.name, DB.name_size);
    R1 = db_t0; C1 = nm_st;
#else
    static decl_node nd[TMAX]; static char nn[NMAX]; uint64_t more = vf_case() / 9 % 2; DB.decl_size = DB.decl_offset + more; DB.name_size = DB.name_offset + more;
    nd[0] = DB.decl[0]; nd[1] = r; nn[0] = DB.name[0]; DB.decl = (decl_node*)malloc(TMAX * 32); DB.name = (char*)malloc(NMAX);
    for (uint64_t i = 0; i < TMAX; i++) DB.decl[i] = nd[i];
    for (uint64_t i = 0; i < NMAX; i++) DB.name[i] = nn[i];
    if (K < DB.decl_offset) R1 = nd[K];
    if (M < DB.name_offset) C1 = nn[M];
#endif
    D1 = DB; DEF = true;
}
extern "C" __attribute__((used)) void hav_links(decl_id &i) { i = (decl_id)nd_u64(); LASTI = i; __vf_modifies(&LASTI); }
extern "C" __attribute__((used)) bool inv_links(decl_id &i)
{
    LINKS = true; LASTI = i;
#ifdef DB_GHOST
    return i <= DB.decl_offset && (K >= i || rec_ok(&db_t0, &DB));
#else
    return true;
#endif
}
extern "C" __attribute__((used)) uint64_t var_links(decl_id &i) { return DB.decl_offset - i; }
#endif
//@ image_read props=C20,C21 opts=--max-field-sensitivity-array-size,128 fn=crefl_db_read_mem,crefl_db_magic cases=2 gcases=20 stubs=crefl_db_defaults:stub_defaults gstubs=crefl_db_defaults:stub_defaults cuts=crefl_db_read_mem:0:links
ENTRY(image_read)
{
    uint64_t in = RANGE("n_in", 0, IMAX); static uint8_t hdr[20];
    for (int i = 0; i < 20; i++) hdr[i] = (uint8_t)IN("byte");
    uint64_t U0 = RANGE("n_u0", 1, TMAX - NBUILTIN - 1), S0 = RANGE("n_s0", U0, TMAX - 1), N0 = RANGE("n_n0", 1, NMAX - 4), Z0 = RANGE("n_z0", N0, NMAX - 3);
    R0 = any_node(); C0 = (char)IN("byte"); decl_node ir = any_node(); char ic = (char)IN("byte");
    bool byname = vf_native ? IN("has") & 1 : vf_case() & 1;
#ifdef VF_NATIVE
    decl_db *db = crefl_db_new(); U0 = N0 = 1; (void)S0; (void)Z0;
    if (IN("small") % 8) memcpy(hdr, MAGIC, 8);
    uint64_t c = IN("small") % 5, z = IN("small") % 6; hdr[8] = (uint8_t)c; hdr[9] = hdr[10] = hdr[11] = 0; hdr[12] = (uint8_t)z; hdr[13] = hdr[14] = hdr[15] = 0;
    if (IN("small") % 16 == 0) hdr[8 + IN("small") % 8] = (uint8_t)IN("byte");
    if (IN("small") % 8) { hdr[16] = 23; hdr[17] = hdr[18] = hdr[19] = 0; }
    uint64_t want = 20 + 32 * c + z; if (IN("small") % 4) in = want + IN("small") % 3 - 1;
    uint8_t *img = (uint8_t*)malloc(in ? in : 1);
    for (uint64_t i = 0; i < in; i++) img[i] = i < 20 ? hdr[i] : (i - 20) % 4 ? 0 : (uint8_t)(IN("small") % 26);
    if (IN("small") % 4 && in) img[in - 1] = 0;
    if (in > 60 && IN("small") % 3 == 0) img[20 + IN("small") % 40] = (uint8_t)IN("byte");
#else
#ifdef VF_BOUNDED
    static const uint8_t sz[3] = { 0, 1, 3 };
    uint64_t k = vf_case() < 18 ? vf_case() : 7, cc = k % 3, zz = sz[k / 3 % 3];
    hdr[8] = (uint8_t)cc; hdr[12] = (uint8_t)zz; hdr[9] = hdr[10] = hdr[11] = hdr[13] = hdr[14] = hdr[15] = 0; in = 20 + 32 * cc + zz - (vf_case() == 18);
    if (vf_case() == 19) { hdr[11] = hdr[15] = 255; in = 60; }
    U0 = N0 = 1;
#endif
    decl_db *db = &DB;
    DB.decl_offset = U0; DB.decl_size = S0; DB.decl_builtin = IN("u"); DB.name_offset = N0; DB.name_size = Z0; DB.name_builtin = IN("u"); DB.root_element = (decl_id)IN("u"); D1 = DB;
    K = RANGE("n_k", 0, TMAX + IMAX); M = RANGE("n_m", 0, NMAX + IMAX);
    if (M == N0 - 1) C0 = 0;
    uint64_t D0 = U0 + NBUILTIN;
#endif
    uint32_t cnt = le32(hdr + 8), nsz = le32(hdr + 12), root = le32(hdr + 16);
    bool magic = true; for (int i = 0; i < 8; i++) magic = magic & (hdr[i] == MAGIC[i]);
#ifdef VF_NATIVE
    int r = crefl_db_read_mem(db, img, in);
    if (in < 20 || !magic) { ASSERT(r != 0, "[post] no image"); return; }
    if (!cnt) { ASSERT(r == 0 && db->decl_offset == 1, "[post] an empty image leaves the database empty"); return; }
    if ((uint64_t)cnt * 32 + nsz > in - 20) { ASSERT(r != 0, "[post] a truncated image is refused"); return; }
    decl_db *f = crefl_db_new(); crefl_db_defaults(f);
    bool ok = root == f->decl_offset && (!nsz || !img[20 + 32 * (uint64_t)cnt + nsz - 1]);
    decl_db lim; lim.decl_offset = f->decl_offset + cnt; lim.name_offset = f->name_offset + nsz;
    for (uint64_t i = 0; i < cnt; i++) { decl_node n; memcpy(&n, img + 20 + 32 * i, 32); ok = ok && rec_ok(&n, &lim); }
    ASSERT((r == 0) == ok, "[post] loaded exactly when the image is well formed");
    if (r) return;
    ASSERT(db->decl_offset == lim.decl_offset && db->name_offset == lim.name_offset && db->root_element == root && db->decl_builtin == f->decl_offset && db->name_builtin == f->name_offset, "[post] counts and root element");
    for (uint64_t i = 0; i < lim.decl_offset; i++) { decl_node n; if (i >= f->decl_offset) memcpy(&n, img + 20 + 32 * (i - f->decl_offset), 32); else n = f->decl[i]; ASSERT(node_eq(&n, db->decl + i), "[post] every record as in the image"); }
    for (uint64_t i = 0; i < lim.name_offset; i++) ASSERT(db->name[i] == (i >= f->name_offset ? (char)img[20 + 32 * (uint64_t)cnt + i - f->name_offset] : f->name[i]), "[post] every name byte as in the image");
#else
#ifdef DB_GHOST
    db_t0 = R0; nm_st = C0;
    DB.decl = (decl_node*)__vf_track(S0 * 32, 32, K, &db_t0); DB.name = (char*)__vf_track(Z0, 1, M, &nm_st);
    /* the record or name byte of the image that lands on K or M; the number of names added by the
       defaults is not known yet, so the image byte is chosen first and M from it */
    uint64_t q = RANGE("n_q", 0, IMAX); static decl_node ir_st; static char ic_st; ir_st = ir; ic_st = ic;
    uint8_t *img = byname ? (uint8_t*)__vf_track2(in, 1, 20 + (uint64_t)cnt * 32 + q, &ic_st, 20, hdr) : (uint8_t*)__vf_track2(in, 32, K >= D0 && K - D0 < cnt ? 20 + 32 * (K - D0) : (uint64_t)1 << 50, &ir_st, 20, hdr);
    static uint8_t hdr0[20]; for (int i = 0; i < 20; i++) hdr0[i] = hdr[i];
#else
    DB.decl = (decl_node*)malloc(TMAX * 32); DB.name = (char*)malloc(NMAX); DB.decl[0] = R0; DB.name[0] = 0;
    uint64_t q = M; static uint8_t image[IMAX]; uint8_t *img = image; for (uint64_t i = 20; i < IMAX; i++) img[i] = (uint8_t)nd_u64();
    for (int i = 0; i < 20; i++) if (i < in) img[i] = hdr[i];
#endif
    int r = crefl_db_read_mem(&DB, img, in);
    if (in < 20 || !magic) { ASSERT(r != 0 && !DEF, "[post] no image"); return; }
    if (!cnt) { ASSERT(r == 0 && DB.decl_offset == U0 && DB.name_offset == N0, "[post] an empty image leaves the database as it is"); return; }
    if ((uint64_t)cnt * 32 + nsz > in - 20) { ASSERT(r != 0, "[post] a truncated image is refused"); return; }
#ifndef DB_GHOST
    byname = false; if (nsz) { q = nsz - 1; ic = (char)img[20 + 32 * (uint64_t)cnt + q]; byname = true; }
#endif
    bool last = byname && nsz && q == nsz - 1;
    if (!DEF) { ASSERT(r != 0 && nsz && (!last || ic != 0), "[post] a name table without end is refused, and no other"); return; }
    if (last) ASSERT(ic == 0, "[post] a name table without end is refused, and no other");
    ASSERT(DB.decl_offset <= DB.decl_size && DB.name_offset <= DB.name_size, "[post] the sizes cover what is in use");
    if (root != D0) { ASSERT(r != 0, "[post] another set of builtin types is refused"); return; }
#ifdef DB_GHOST
    ASSERT(__vf_tlen(DB.decl) >= DB.decl_size * 32 && __vf_tlen(DB.name) >= DB.name_size, "[post] the tables have the size they claim");
    ASSERT(LINKS, "[general] the records are checked in the loop");
    if (r) { if (LASTI == K) ASSERT(!rec_ok(&db_t0, &DB), "[post] a bad reference is refused, and nothing else"); return; }
    const decl_node *n = &db_t0; char nb = nm_st;
#else
    bool bad = false; for (uint64_t i = 0; i < TMAX; i++) if (i < DB.decl_offset) bad = bad | !rec_ok(DB.decl + i, &DB);
    ASSERT((r != 0) == bad, "[post] a bad reference is refused, and nothing else");
    if (r) return;
    const decl_node *n = DB.decl + (K < DB.decl_offset ? K : 0); char nb = DB.name[M < DB.name_offset ? M : 0];
    byname = false; if (K >= D0 && K < DB.decl_offset) memcpy(&ir, img + 20 + 32 * (K - D0), 32);
    if (M >= D1.name_offset && M < DB.name_offset) { q = M - D1.name_offset; ic = (char)img[20 + 32 * (uint64_t)cnt + q]; byname = true; }
#endif
    ASSERT(DB.decl_offset == D0 + cnt && DB.name_offset == D1.name_offset + nsz && DB.root_element == root && DB.decl_builtin == D0 && DB.name_builtin == D1.name_offset, "[post] counts and root element");
    if (K < DB.decl_offset) ASSERT(rec_ok(n, &DB), "[post] every reference of a loaded database is in range");
    if (K < D0) ASSERT(node_eq(n, &R1), "[post] the builtin types are kept");
    else if (K < DB.decl_offset && !byname) ASSERT(node_eq(n, &ir), "[post] every record as in the image");
    if (M < D1.name_offset) ASSERT(nb == C1, "[post] the names before are kept");
    else if (M < DB.name_offset && byname && q == M - D1.name_offset) ASSERT(nb == ic, "[post] every name byte as in the image");
    if (M == DB.name_offset - 1 && byname && (M < D1.name_offset || q == M - D1.name_offset)) ASSERT(nb == 0, "[post] the name table is terminated");
#ifdef DB_GHOST
    for (int i = 0; i < 20; i++) ASSERT(hdr[i] == hdr0[i], "[frame] the image is not changed");
    ASSERT(byname ? ic_st == ic : node_eq(&ir_st, &ir), "[frame] the image is not changed");
    COVER(K >= D0 && K < DB.decl_offset, "a record of the image"); COVER(byname && M >= D1.name_offset && M < DB.name_offset && q == M - D1.name_offset, "a name of the image");
#endif
#endif
}
