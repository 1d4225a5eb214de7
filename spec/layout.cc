#include "db.h"
#include "builtin.h"
//@@ src=model.cc,types.cc unwind=26 gunwind=26 gbound=none objbits=10 track=1 stubs=crefl_decl_tag:stub_decl_tag,crefl_decl_props:stub_decl_props,crefl_decl_qty:stub_decl_qty,crefl_decl_next:stub_decl_next,crefl_decl_link:stub_decl_link,crefl_decl_attr:stub_decl_attr
/*
 * Layout, after the x86-64 psABI 3.1.2.  The layout of a type is (al, sz): alignment 2^al bits and
 * size sz bits.  Every function is verified against the contract of _type_pad for the types it
 * looks at: an arbitrary (but fixed) layout for every declaration.  lay_type is the induction step.
 */
size_t crefl_type_align(decl_ref d); size_t crefl_type_width(decl_ref d); size_t crefl_struct_align(decl_ref d); size_t crefl_struct_width(decl_ref d);
size_t crefl_union_align(decl_ref d); size_t crefl_union_width(decl_ref d); size_t crefl_array_align(decl_ref d); size_t crefl_array_width(decl_ref d);
struct lay { uint64_t al, sz; };
/* an object at offset off or behind, aligned to 2^al */
static inline uint64_t up(uint64_t off, uint64_t al) { uint64_t a = (uint64_t)1 << (al & 63), r = off & (a - 1); return r ? off + (a - r) : off; }
static inline uint64_t lg(uint64_t bits) { uint64_t n = 0; while (n < 63 && (uint64_t)1 << n < bits) n++; return n; }
/* size and alignment in bits of the builtin types, in the order of BUILTIN; 0: no C object type */
static const uint16_t ABI[22][2] = { { 0, 0 }, { 8, 8 }, { 0, 0 }, { 0, 0 }, { 8, 8 }, { 8, 8 }, { 16, 16 }, { 16, 16 }, { 32, 32 }, { 32, 32 }, { 64, 64 }, { 64, 64 },
    { 128, 128 }, { 128, 128 }, { 16, 16 }, { 32, 32 }, { 64, 64 }, { 128, 128 }, { 32, 16 }, { 64, 32 }, { 128, 64 }, { 256, 128 } };
#ifdef VF_NATIVE
/* native: random acyclic types, the reference computed by recursion */
static lay ref(uint64_t i);
static lay fold(uint64_t i, bool un, uint64_t *off, uint64_t *idx, uint64_t *cnt)
{
    lay l = { 0, 0 }; uint64_t n = 0, mx = 0;
    for (uint64_t c = DB.decl[i]._link; c; c = DB.decl[c]._next) if (DB.decl[c]._tag == _decl_field) {
        lay f = ref(DB.decl[c]._link); if (f.al > l.al) l.al = f.al;
        if (f.sz > mx) mx = f.sz;
        l.sz = up(l.sz, f.al); if (off) { off[n] = l.sz; idx[n] = c; } n++; l.sz += f.sz;
    }
    l.sz = up(un ? mx : l.sz, l.al); if (cnt) *cnt = n; return l;
}
static lay ref(uint64_t i)
{
    const decl_node &n = DB.decl[i];
    switch (n._tag) {
    case _decl_intrinsic: for (int b = 0; b < 22; b++) if (n._props == BUILTIN[b].props && n._width == BUILTIN[b].width) return lay { lg(ABI[b][1]), ABI[b][0] };
    case _decl_pointer: case _decl_enum: case _decl_set: return lay { lg(n._quantity), n._quantity };
    case _decl_typedef: case _decl_qualifier: case _decl_field: return ref(n._link);
    case _decl_array: { lay l = ref(n._link); l.sz *= n._quantity; return l; }
    default: return fold(i, n._tag == _decl_union, 0, 0, 0);
    }
}
static void native_layout(int what)
{
    static decl_node tab[200]; memset((void*)tab, 0, sizeof tab); uint64_t n = 1, types[200], nt = 0;
    auto mk = [&](decl_tag t, uint64_t q, uint64_t link) { tab[n]._tag = t; tab[n]._quantity = q; tab[n]._link = (decl_id)link; return n++; };
    for (int b = 1; b < 22; b++) if (ABI[b][0]) { uint64_t k = mk(_decl_intrinsic, BUILTIN[b].width, 0); tab[k]._props = BUILTIN[b].props; types[nt++] = k; }
    types[nt++] = mk(_decl_pointer, 64, 0); types[nt++] = mk(_decl_enum, 8u << IN("small") % 4, 0); types[nt++] = mk(_decl_set, 8u << IN("small") % 4, 0);
    while (n < 160) {
        uint64_t k = IN("small") % 7, pick = types[IN("small") % nt]; if (IN("small") % 3 == 0) pick = types[nt - 1];
        if (k == 0) types[nt++] = mk(_decl_typedef, 0, pick); else if (k == 1) types[nt++] = mk(_decl_qualifier, 0, pick);
        else if (k == 2) types[nt++] = mk(_decl_array, IN("small") % 5, pick);
        else { uint64_t prev = 0, first = 0, m = IN("small") % 6;
            for (uint64_t j = 0; j < m; j++) { uint64_t c = mk(IN("small") % 5 ? _decl_field : _decl_attribute, 0, types[IN("small") % nt]); if (prev) tab[prev]._next = (decl_id)c; else first = c; prev = c; }
            types[nt++] = mk(k < 5 ? _decl_struct : _decl_union, 0, first); }
    }
    DB.decl = tab; DB.decl_offset = n; DB.decl_size = 200;
    for (uint64_t t = 0; t < nt; t++) {
        uint64_t i = types[t]; decl_ref d = { &DB, i }; lay l = ref(i); bool st = tab[i]._tag == _decl_struct;
        ASSERT(crefl_type_align(d) == l.al, "[post] alignment"); ASSERT(crefl_type_width(d) == l.sz, "[post] size");
        if (st) { ASSERT(crefl_struct_align(d) == l.al && crefl_struct_width(d) == l.sz, "[post] size"); }
        if (tab[i]._tag == _decl_union) ASSERT(crefl_union_align(d) == l.al && crefl_union_width(d) == l.sz, "[post] size");
        if (what) {
            uint64_t off[8], idx[8], cnt = 0; if (st) fold(i, false, off, idx, &cnt);
            uint64_t lim = IN("small") % 10; decl_ref *r = (decl_ref*)malloc(lim * sizeof *r); size_t *o = (size_t*)malloc(lim * sizeof *o), s = lim;
            int q = crefl_struct_fields_offsets(d, r, o, &s);
            ASSERT((q == 0) == st, "[post] a node of another kind is refused"); if (q) { free(r); free(o); continue; }
            ASSERT(s == (cnt ? cnt + 1 : 0), "[post] the count is the number of fields and the terminal entry");
            for (uint64_t j = 0; j < cnt && j < lim; j++) ASSERT(o[j] == off[j] && r[j].decl_idx == idx[j], "[post] each field in order");
            if (cnt && cnt < lim) ASSERT(o[cnt] == l.sz && r[cnt].decl_idx == 0, "[post] the total size at the end");
            free(r); free(o);
        }
    }
}
#define ATTEMPT(what) native_layout(what); return
#elif defined(VF_BOUNDED)
#define ATTEMPT(what) ASSERT(false, "[general] the loops and the recursion are those the contracts are written for"); ASSUME(false); return
#else
#define ATTEMPT(what)
#endif
#ifdef DB_GHOST
#define NPM 4
static struct { uint64_t i[NPM]; lay l[NPM]; int n; } PM;
/* contract of _type_pad: some layout, the same whenever it is asked for */
static inline lay pad(uint64_t i)
{
    lay l = { nd_u64(), nd_u64() }; bool have = false; ASSUME(l.al <= 7);
    for (int k = 0; k < NPM; k++) if (k < PM.n && PM.i[k] == i) { l = PM.l[k]; have = true; }
    if (have) return l;
    ASSERT(PM.n < NPM, "[limit] layouts looked at"); ASSUME(PM.n < NPM);
    for (int k = 0; k < NPM; k++) if (k == PM.n) { PM.i[k] = i; PM.l[k] = l; }
    PM.n++; return l;
}
/* the memos grow, which is no effect of the loop; what they hold may be forgotten */
static inline void pad_memo() { db_memo(); __vf_modifies(&PM); db_n = 0; PM.n = 0; }
STUB lay stub_pad(decl_ref d) { ASSERT(d.db == &DB && d.decl_idx < G.used, "[pre] the reference is in range"); return pad(d.decl_idx); }
static uint64_t SELF;
STUB lay stub_self(decl_ref d) { ASSERT(d.db == &DB && d.decl_idx == SELF, "[post] the layout of the node itself"); return pad(d.decl_idx); }
/* ghost: the walk over the children, and the layout so far */
struct walk { uint64_t i, m, cur, al, off, mx, c, j, wc, widx, woff; bool wm; };
static walk W;
static inline bool same_ref(decl_ref a, decl_db *db, uint64_t idx) { return a.db == db && a.decl_idx == idx; }
extern "C" __attribute__((used)) void step_kids(void)
{
    bool f = rec(W.cur)._tag == _decl_field;
    if (W.i == W.j) { W.wm = f; W.wc = W.c; W.widx = W.cur; }
    if (f) {
        lay l = pad(rec(W.cur)._link); if (l.al > W.al) W.al = l.al;
        if (l.sz > W.mx) W.mx = l.sz;
        W.off = up(W.off, l.al); if (W.i == W.j) W.woff = W.off;
        W.off += l.sz; W.c++;
    }
    W.cur = rec(W.cur)._next; W.i++;
    ASSUME(W.cur < G.used && (W.cur == 0) == (W.i == W.m));        /* links in range, a list of m children */
}
static inline void hav_walk(decl_ref &d)
{
    __vf_modifies(&W); pad_memo(); uint64_t m = W.m, j = W.j; W.i = nd_u64(); W.cur = nd_u64(); W.al = nd_u64(); W.off = nd_u64(); W.mx = nd_u64(); W.c = nd_u64(); W.wc = nd_u64(); W.widx = nd_u64(); W.woff = nd_u64(); W.wm = nd_u64() & 1; W.m = m; W.j = j;
    ASSUME(W.al <= 7 && W.cur < G.used && (W.cur == 0) == (W.i == W.m) && W.i <= W.m); d.db = &DB; d.decl_idx = W.cur;
}
static inline bool inv_walk(decl_ref &d) { return same_ref(d, &DB, W.cur) && W.i <= W.m && W.c <= W.i && W.al <= 7; }
extern "C" __attribute__((used)) void hav_struct(decl_ref &d, size_t &offset, lay &max) { hav_walk(d); offset = W.off; max.al = W.al; max.sz = W.mx; }
extern "C" __attribute__((used)) bool inv_struct(decl_ref &d, size_t &offset, lay &max) { return inv_walk(d) && offset == W.off && max.al == W.al; }
extern "C" __attribute__((used)) void step_struct(void) { step_kids(); }
extern "C" __attribute__((used)) uint64_t var_struct(void) { return W.m - W.i; }
extern "C" __attribute__((used)) void hav_union(decl_ref &d, lay &max) { hav_walk(d); max.al = W.al; max.sz = W.mx; }
extern "C" __attribute__((used)) bool inv_union(decl_ref &d, lay &max) { return inv_walk(d) && max.al == W.al && max.sz == W.mx; }
extern "C" __attribute__((used)) void step_union(void) { step_kids(); }
extern "C" __attribute__((used)) uint64_t var_union(void) { return W.m - W.i; }
static inline void start(uint64_t idx)
{
    W.i = W.c = 0; W.cur = rec(idx)._link; W.al = W.off = W.mx = 0; W.j = IN("n_j"); W.m = IN("n_m"); W.wm = false;
    ASSUME((W.cur == 0) == (W.m == 0) && W.m < (uint64_t)1 << 32);
}
#endif
//@ lay_type props=C24 fn=_type_pad,_field_pad,_intrinsic_pad,_pointer_pad,_pad_align,_align cases=2 stubs=crefl_decl_tag:stub_decl_tag,crefl_decl_props:stub_decl_props,crefl_decl_qty:stub_decl_qty,crefl_decl_next:stub_decl_next,crefl_decl_link:stub_decl_link,crefl_decl_attr:stub_decl_attr,_ZL9_type_pad8decl_ref>_ZL9_type_pad8decl_ref:stub_pad,_ZL10_field_pad8decl_ref>_ZL9_type_pad8decl_ref:stub_pad,_ZL11_struct_pad8decl_ref:stub_self,_ZL10_union_pad8decl_ref:stub_self,_ZL10_array_pad8decl_ref:stub_self
ENTRY(lay_type)
{
    ATTEMPT(0);
#ifdef DB_GHOST
    mkdb(); uint64_t idx = IN("idx"); ASSUME(idx < G.used); SELF = idx;
    decl_node n = rec(idx); decl_tag t = n._tag; lay want;
    if (t == _decl_intrinsic) { uint64_t b = IN("b"); ASSUME(b < 22 && ABI[b][0] && n._props == BUILTIN[b].props && n._quantity == BUILTIN[b].width); want.al = lg(ABI[b][1]); want.sz = ABI[b][0]; }
    else if (t == _decl_pointer || t == _decl_enum || t == _decl_set) { uint64_t q = IN("b"); ASSUME(q >= 3 && q <= 6 && n._quantity == (uint64_t)1 << q); want.al = q; want.sz = (uint64_t)1 << q; }
    else if (t == _decl_typedef || t == _decl_qualifier || t == _decl_field) want = pad(n._link);
    else { ASSUME(t == _decl_struct || t == _decl_union || t == _decl_array); want = pad(idx); }
    decl_ref d = { &DB, idx };
    if (vf_case()) ASSERT(crefl_type_align(d) == want.al, "[post] alignment"); else ASSERT(crefl_type_width(d) == want.sz, "[post] size");
    ASSERT(db_same(), "[frame] nothing in the database changes");
#endif
}
//@ lay_struct props=C24 fn=_struct_pad cases=2 cuts=_ZL11_struct_pad8decl_ref:0:struct stubs=crefl_decl_tag:stub_decl_tag,crefl_decl_props:stub_decl_props,crefl_decl_qty:stub_decl_qty,crefl_decl_next:stub_decl_next,crefl_decl_link:stub_decl_link,crefl_decl_attr:stub_decl_attr,_ZL9_type_pad8decl_ref:stub_pad
ENTRY(lay_struct)
{
    ATTEMPT(0);
#ifdef DB_GHOST
    mkdb(); uint64_t idx = IN("idx"); ASSUME(idx < G.used && rec(idx)._tag == _decl_struct); start(idx);
    decl_ref d = { &DB, idx };
    if (vf_case()) { uint64_t a = crefl_struct_align(d); ASSERT(a == W.al, "[post] the alignment is the greatest of the fields'"); }
    else { uint64_t w = crefl_struct_width(d); ASSERT(w == up(W.off, W.al), "[post] the size is that of the fields in order, each aligned, and padded at the end"); }
    ASSERT(W.i == W.m, "[post] all fields count"); ASSERT(db_same(), "[frame] nothing in the database changes");
    COVER(W.c > 3, "several fields");
#endif
}
//@ lay_union props=C24 fn=_union_pad cases=2 cuts=_ZL10_union_pad8decl_ref:0:union stubs=crefl_decl_tag:stub_decl_tag,crefl_decl_props:stub_decl_props,crefl_decl_qty:stub_decl_qty,crefl_decl_next:stub_decl_next,crefl_decl_link:stub_decl_link,crefl_decl_attr:stub_decl_attr,_ZL9_type_pad8decl_ref:stub_pad
ENTRY(lay_union)
{
    ATTEMPT(0);
#ifdef DB_GHOST
    mkdb(); uint64_t idx = IN("idx"); ASSUME(idx < G.used && rec(idx)._tag == _decl_union); start(idx);
    decl_ref d = { &DB, idx };
    if (vf_case()) { uint64_t a = crefl_union_align(d); ASSERT(a == W.al, "[post] the alignment is the greatest of the fields'"); }
    else { uint64_t w = crefl_union_width(d); ASSERT(w == up(W.mx, W.al), "[post] the size is the greatest of the fields', padded at the end"); }
    ASSERT(W.i == W.m, "[post] all fields count"); ASSERT(db_same(), "[frame] nothing in the database changes");
    COVER(W.c > 3, "several fields");
#endif
}
/* ---- arrays: the dimensions multiply -------------------------------------------------------- */
#ifdef DB_GHOST
static struct { uint64_t c, q, n, qty; } A;       /* current array, elements so far, dimensions left, elements of the current array */
STUB decl_sz stub_qty(decl_ref d) { ASSERT(d.db == &DB && d.decl_idx == A.c, "[post] the number of elements is that of the array"); return A.qty; }
/* the dimensions end after A.n: an assumption on the database */
static inline void dims_wf() { if (A.n) ASSUME(rec(A.c)._tag == _decl_array && (rec(rec(A.c)._link)._tag == _decl_array) == (A.n > 1)); }
static inline void next_dim() { A.q = A.q * A.qty; A.c = rec(A.c)._link; A.qty = nd_u64(); A.n--; }
extern "C" __attribute__((used)) void hav_dims(decl_ref &d, size_t &qty)
{
    __vf_modifies(&A); pad_memo(); A.c = nd_u64(); A.q = nd_u64(); A.n = nd_u64(); A.qty = nd_u64();
    ASSUME(A.n > 0 && A.n < (uint64_t)1 << 32 && A.c < G.used); dims_wf(); d.db = &DB; d.decl_idx = A.c; qty = A.q;
}
extern "C" __attribute__((used)) bool inv_dims(decl_ref &d, size_t &qty) { return same_ref(d, &DB, A.c) && qty == A.q && A.n > 0; }
extern "C" __attribute__((used)) void step_dims(void) { next_dim(); dims_wf(); }
extern "C" __attribute__((used)) uint64_t var_dims(void) { return A.n; }
#endif
//@ lay_array props=C24 cc=VF_UMUL=3 fn=_array_pad,crefl_array_count,crefl_array_type cases=2 opts=--sat-solver,cadical cuts=_ZL10_array_pad8decl_ref:0:dims stubs=crefl_decl_tag:stub_decl_tag,crefl_decl_props:stub_decl_props,crefl_decl_qty:stub_qty,crefl_decl_next:stub_decl_next,crefl_decl_link:stub_decl_link,crefl_decl_attr:stub_decl_attr,_ZL9_type_pad8decl_ref:stub_pad
ENTRY(lay_array)
{
    ATTEMPT(0);
#ifdef DB_GHOST
    mkdb(); uint64_t idx = IN("idx"); ASSUME(idx < G.used && rec(idx)._tag == _decl_array);
    A.c = idx; A.q = 1; A.qty = IN("q"); A.n = IN("n_m"); ASSUME(A.n > 0 && A.n < (uint64_t)1 << 32); dims_wf();      /* so many dimensions */
    decl_ref d = { &DB, idx };
    if (vf_case()) { uint64_t a = crefl_array_align(d); if (A.n) next_dim(); ASSERT(a == pad(A.c).al, "[post] the alignment is that of the element"); }
    else { uint64_t w = crefl_array_width(d); if (A.n) next_dim(); ASSERT(w == pad(A.c).sz * A.q, "[post] the size is that of all elements"); }
    ASSERT(A.n == 0, "[post] all dimensions count"); ASSERT(db_same(), "[frame] nothing in the database changes");
    COVER(A.n == 0, "the end of the dimensions");
#endif
}
/* ---- field offsets: what is written at an arbitrary slot T, against an arbitrary child j ------- */
#ifdef DB_GHOST
static decl_ref *R; static size_t *O; static uint64_t LIM, CAP, T, o0, oslot; static decl_ref r0, rslot; static decl_db other;
extern "C" __attribute__((used)) void hav_offs(decl_ref &d, size_t &count, size_t &offset, lay &max)
{
    hav_walk(d); __vf_modifies(&rslot); __vf_modifies(&oslot); __vf_modifies(R); __vf_modifies(O);
    count = W.c; offset = W.off; max.al = W.al; max.sz = W.mx;
    if (R && T < CAP) rslot = nd_u64() & 1 ? r0 : decl_ref { &DB, nd_u64() };
    if (O && T < CAP) oslot = nd_u64();
}
extern "C" __attribute__((used)) bool inv_offs(decl_ref &d, size_t &count, size_t &offset, lay &max)
{
    bool ok = inv_walk(d) & (count == W.c) & (offset == W.off) & (max.al == W.al);
    if (W.i > W.j) ok = ok & (!W.wm || W.wc < W.c) & (W.wc <= W.j);
    if (T < CAP) {
        bool kept = T >= W.c || T >= LIM, hit = W.i > W.j && W.wm && W.wc == T;
        if (R) { if (kept) ok = ok & same_ref(rslot, r0.db, r0.decl_idx); else if (hit) ok = ok & same_ref(rslot, &DB, W.widx); }
        if (O) { if (kept) ok = ok & (oslot == o0); else if (hit) ok = ok & (oslot == W.woff); }
    }
    return ok;
}
extern "C" __attribute__((used)) void step_offs(void) { step_kids(); }
extern "C" __attribute__((used)) uint64_t var_offs(void) { return W.m - W.i; }
#endif
//@ lay_offsets props=C24 cc=VF_WIDE=1 fn=crefl_struct_fields_offsets,_align cuts=crefl_struct_fields_offsets:0:offs stubs=crefl_decl_tag:stub_decl_tag,crefl_decl_props:stub_decl_props,crefl_decl_qty:stub_decl_qty,crefl_decl_next:stub_decl_next,crefl_decl_link:stub_decl_link,crefl_decl_attr:stub_decl_attr,_ZL9_type_pad8decl_ref:stub_pad
ENTRY(lay_offsets)
{
    ATTEMPT(1);
#ifdef DB_GHOST
    mkdb(); uint64_t idx = IN("idx"), has = IN("has"); ASSUME(idx < G.used); start(idx); decl_tag tag = rec(idx)._tag; W.wc = W.widx = W.woff = 0;
    CAP = IN("n_cap"); T = IN("n_slot"); LIM = has & 1 ? CAP : 0; uint64_t s = CAP; ASSUME(CAP <= VF_MAXDECL && T <= CAP);
    decl_ref *rm = (decl_ref*)__vf_track(CAP * sizeof(decl_ref), sizeof(decl_ref), T, &rslot); size_t *om = (size_t*)__vf_track(CAP * sizeof(size_t), sizeof(size_t), T, &oslot);
    R = has & 2 ? rm : 0; O = has & 4 ? om : 0; r0 = decl_ref { &other, T }; o0 = IN("q"); if (T < CAP) { rslot = r0; oslot = o0; }
    int q = crefl_struct_fields_offsets(decl_ref { &DB, idx }, R, O, has & 1 ? &s : 0);
    ASSERT(db_same(), "[frame] nothing in the database changes");
    bool rk = same_ref(rslot, r0.db, r0.decl_idx), ok = oslot == o0;
    if (tag != _decl_struct) { ASSERT(q < 0 && s == CAP, "[post] a node of another kind is refused"); ASSERT(T >= CAP || (rk && ok), "[post] a refused query writes nothing"); return; }
    ASSERT(q == 0, "[post] a struct is accepted"); ASSERT(W.i == W.m, "[post] all fields count");
    if (has & 1) ASSERT(s == (W.c ? W.c + 1 : 0), "[post] the count is the number of fields and the terminal entry");
    COVER(W.c > 3 && LIM > 5 && R != 0 && O != 0, "a long list");
    if (T >= CAP) return;
    if (T > W.c || T >= LIM) { ASSERT((!R || rk) && (!O || ok), "[frame] nothing beyond the limit or the fields is written"); return; }
    if (T == W.c) { if (W.c) { if (R) ASSERT(rslot.decl_idx == 0, "[post] the terminal entry"); if (O) ASSERT(oslot == up(W.off, W.al), "[post] the total size at the end"); } return; }
    if (W.j < W.m && W.wm && W.wc == T) {
        if (R) ASSERT(same_ref(rslot, &DB, W.widx), "[post] each field in order");
        if (O) ASSERT(oslot == W.woff, "[post] the offset of each field");
    }
#endif
}
