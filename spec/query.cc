#include "db.h"
//@@ src=model.cc,types.cc unwind=7 cuts=_ZL17_decl_array_fetchP7decl_dbP8decl_refPmS1_PFiS1_E:0:fetch gunwind=7 unwindmax=14 gbound=databases_of_at_most_5_records objbits=10 track=1 stubs=crefl_decl_tag:stub_decl_tag,crefl_decl_props:stub_decl_props,crefl_decl_qty:stub_decl_qty,crefl_decl_next:stub_decl_next,crefl_decl_link:stub_decl_link,crefl_decl_attr:stub_decl_attr
/* list queries: the matching children in order, up to the limit, and the total count */
enum { M_FIELD = _decl_field, M_ANY = 1000, M_TYPE };
static inline bool is_kind(decl_tag t, int kind)
{
    if (kind == M_ANY) return true;
    if (kind != M_TYPE) return t == (decl_tag)kind;
    return t == _decl_typedef || t == _decl_intrinsic || t == _decl_set || t == _decl_enum || t == _decl_struct ||
           t == _decl_union || t == _decl_array || t == _decl_pointer || t == _decl_qualifier;
}
/* ghost: position, matches so far and current record of the walk; the arbitrary child j and slot t followed */
struct walk { uint64_t i, c, cur, m, j, wc, widx; bool wm; int kind; };
static walk W;
static decl_ref *R; static uint64_t LIM, CAP, T; static decl_ref T0;
#ifdef DB_GHOST
#define RMEM (decl_ref*)__vf_track(CAP * sizeof(decl_ref), sizeof(decl_ref), T, &slot)
#define RT slot
#else
#define RMEM (decl_ref*)malloc(VF_MAXDECL * sizeof(decl_ref))
#define RT R[T]
#endif
static decl_ref slot;
static inline bool same_ref(decl_ref a, decl_db *db, uint64_t idx) { return a.db == db && a.decl_idx == idx; }

#if !defined(VF_NATIVE) && !defined(VF_BOUNDED)
extern "C" __attribute__((used)) void step_fetch(void)
{
    bool mt = is_kind(rec(W.cur)._tag, W.kind);
    if (W.i == W.j) { W.wm = mt; W.wc = W.c; W.widx = W.cur; }
    W.cur = rec(W.cur)._next; W.i++; if (mt) W.c++;
    ASSUME(W.cur < DB.decl_offset && (W.cur == 0) == (W.i == W.m));        /* links in range, a list of m children */
}
extern "C" __attribute__((used)) void hav_fetch(size_t &count, decl_ref &d)
{
    __vf_modifies(&W); __vf_modifies(&slot); __vf_modifies(R); db_memo();
    W.i = nd_u64(); W.c = nd_u64(); W.cur = nd_u64(); W.wc = nd_u64(); W.widx = nd_u64(); W.wm = nd_u64() & 1;
    ASSUME(W.cur < DB.decl_offset && (W.cur == 0) == (W.i == W.m) && W.i <= W.m);
    count = W.c; d.db = &DB; d.decl_idx = W.cur;
    if (R && T < CAP) RT = nd_u64() & 1 ? T0 : decl_ref { &DB, nd_u64() };
}
extern "C" __attribute__((used)) bool inv_fetch(size_t &count, decl_ref &d)
{
    bool ok = W.i <= W.m && W.c <= W.i && count == W.c && same_ref(d, &DB, W.cur);
    if (W.i > W.j) ok = ok & (!W.wm || W.wc < W.c) & (W.wc <= W.j);
    if (R && T < CAP) {
        if (T >= W.c || T >= LIM) ok = ok & same_ref(RT, T0.db, T0.decl_idx);
        else if (W.i > W.j && W.wm && W.wc == T) ok = ok & same_ref(RT, &DB, W.widx);
    }
    return ok;
}
extern "C" __attribute__((used)) uint64_t var_fetch(void) { return W.m - W.i; }
#endif
static inline void query(int (*fn)(decl_ref, decl_ref*, size_t*), int cont, int kind)
{
    mkdb();
    uint64_t idx = IN("idx"), has_r = IN("has") & 1, has_s = IN("has") & 3;
    CAP = IN("n_cap"); LIM = CAP; T = IN("n_slot"); uint64_t s = LIM;
    if (vf_native) { idx %= G.used; if (IN("ok") % 8) DB.decl[idx]._tag = G.copy[idx]._tag = cont; CAP %= 12; LIM = s = CAP; T %= CAP + 1; }
    ASSUME(idx < G.used && CAP <= VF_MAXDECL && T <= CAP);
    static decl_db other;
    decl_ref *mem = vf_native ? (decl_ref*)malloc(CAP * sizeof(decl_ref)) : RMEM; R = has_r ? mem : 0;
    if (R && vf_native) for (uint64_t i = 0; i < CAP; i++) R[i] = decl_ref { &other, i };
    if (R && T < CAP) { RT.db = &other; RT.decl_idx = T; T0 = RT; }
    if (R && !has_s) LIM = 0;
    decl_tag tag = rec(idx)._tag;
    W.i = W.c = 0; W.cur = rec(idx)._link; W.kind = kind; W.j = IN("n_j"); W.wm = false; W.wc = W.widx = 0;
#if defined(VF_NATIVE) || defined(VF_BOUNDED)
    ASSUME(W.cur < G.used);
#else
    W.m = IN("n_m"); ASSUME(W.cur < G.used && (W.cur == 0) == (W.m == 0) && W.m < (uint64_t)1 << 32);
#endif
    int q = fn(decl_ref { &DB, idx }, R, has_s ? &s : 0);
    ASSERT(db_same(), "[frame] a query changes nothing in the database");
    if (tag != (decl_tag)cont) {
        ASSERT(q < 0 && s == CAP, "[post] a node of another kind is refused");
        if (R && T < CAP) ASSERT(same_ref(RT, T0.db, T0.decl_idx), "[post] a refused query writes nothing");
        return;
    }
    ASSERT(q == 0, "[post] a node of the right kind is accepted");
#if defined(VF_NATIVE) || defined(VF_BOUNDED)
    uint64_t c = 0; bool ok = true;
    for (uint64_t i = rec(idx)._link; i; i = rec(i)._next) if (is_kind(rec(i)._tag, kind)) { if (R && c < LIM) ok = ok & same_ref(R[c], &DB, i); c++; }
    ASSERT(ok, "[post] the matching children in order");
    if (has_s) ASSERT(s == c, "[post] the count is the number of matching children");
    if (R && T < CAP && (T >= c || T >= LIM)) ASSERT(same_ref(RT, T0.db, T0.decl_idx), "[frame] nothing beyond the limit or the matches is written");
#else
    COVER(W.i == W.m && W.c > 3 && LIM > 5 && R != 0, "a long list");
    if (has_s) ASSERT(s == W.c, "[post] the count is the number of matching children");
    if (R && T < CAP) {
        if (T >= W.c || T >= LIM) ASSERT(same_ref(RT, T0.db, T0.decl_idx), "[frame] nothing beyond the limit or the matches is written");
        else if (W.j < W.m && W.wm && W.wc == T) ASSERT(same_ref(RT, &DB, W.widx), "[post] the matching children in order");
    }
#endif
}
//@ q_enum_constants props=C23 fn=crefl_enum_constants,_decl_array_fetch
ENTRY(q_enum_constants) { query(crefl_enum_constants, _decl_enum, _decl_constant); }
//@ q_set_constants props=C23 fn=crefl_set_constants,_decl_array_fetch
ENTRY(q_set_constants) { query(crefl_set_constants, _decl_set, _decl_constant); }
//@ q_struct_fields props=C23 fn=crefl_struct_fields,_decl_array_fetch
ENTRY(q_struct_fields) { query(crefl_struct_fields, _decl_struct, _decl_field); }
//@ q_union_fields props=C23 fn=crefl_union_fields,_decl_array_fetch
ENTRY(q_union_fields) { query(crefl_union_fields, _decl_union, _decl_field); }
//@ q_function_params props=C23 fn=crefl_function_params,_decl_array_fetch
ENTRY(q_function_params) { query(crefl_function_params, _decl_function, _decl_param); }
//@ q_source_decls props=C23 fn=crefl_source_decls,_decl_array_fetch
ENTRY(q_source_decls) { query(crefl_source_decls, _decl_source, M_ANY); }
//@ q_source_types props=C23 fn=crefl_source_types,_decl_array_fetch
ENTRY(q_source_types) { query(crefl_source_types, _decl_source, M_TYPE); }
//@ q_source_fields props=C23 fn=crefl_source_fields,_decl_array_fetch
ENTRY(q_source_fields) { query(crefl_source_fields, _decl_source, _decl_field); }
//@ q_source_functions props=C23 fn=crefl_source_functions,_decl_array_fetch
ENTRY(q_source_functions) { query(crefl_source_functions, _decl_source, _decl_function); }
//@ q_archive_sources props=C23 fn=crefl_archive_sources,_decl_array_fetch
ENTRY(q_archive_sources) { query(crefl_archive_sources, _decl_archive, _decl_source); }
