#include "db.h"
#include "builtin.h"
#include <crefl/link.h>
#include <crefl/types.h>
//@@ src=model.cc,types.cc,link.cc,sha256.cc unwind=7 objbits=10 track=1 gunwind=9 gbound=tables_of_at_most_2_records_and_names_of_at_most_4_characters
/*
 * Growing tables.  The tables have any size and fill; of each one arbitrary element is followed
 * (K: a record, name byte or entry; of a text to be added, the character that lands on K).
 * realloc is modelled as succeeding and moving: the old place is dead afterwards.
 */
#ifdef VF_BOUNDED
#define TMAX ((uint64_t)2)
#define NMAX ((uint64_t)4)
#elif defined(VF_NATIVE)
#define TMAX ((uint64_t)70)
#define NMAX ((uint64_t)200)
#else
#define TMAX ((uint64_t)1 << 32)
#define NMAX ((uint64_t)1 << 32)
#endif
static uint64_t K, U0, S0;                       /* element followed, used and size on entry */
static uint64_t in_mod(const char *, uint64_t v, uint64_t lo, uint64_t hi) { if (vf_native) v = lo + v % (hi - lo + 1); ASSUME(v >= lo && v <= hi); return v; }
#define RANGE(n, lo, hi) in_mod(n, IN(n), lo, hi)
static inline decl_node any_node()
{
    decl_node r; r._tag = (decl_tag)IN("u"); r._props = (decl_set)IN("u"); r._name = (decl_id)IN("u"); r._next = (decl_id)IN("u"); r._link = (decl_id)IN("u"); r._attr = (decl_id)IN("u"); r._quantity = IN("q");
    return r;
}
static decl_node N0; static char B0, *NAME0;
#ifdef DB_GHOST
static char nm_st, tx_st; static uint64_t NL; static char *TEXT;
#endif
/* ---- a database with any declaration table -------------------------------------------- */
//@ alloc_decl props=C22 fn=crefl_decl_new
ENTRY(alloc_decl)
{
    static char none; decl_tag tag = (decl_tag)IN("tag");
    S0 = RANGE("n_size", 1, TMAX); U0 = RANGE("n_used", 1, S0); K = RANGE("n_k", 0, S0 - 1);
    DB.name = &none; DB.name_offset = IN("u"); DB.name_size = IN("u"); DB.name_builtin = IN("u"); DB.decl_builtin = IN("u"); DB.root_element = (decl_id)IN("u");
    DB.decl_offset = U0; DB.decl_size = S0;
#ifdef DB_GHOST
    db_t0 = any_node(); N0 = db_t0; DB.decl = (decl_node*)__vf_track(S0 * sizeof(decl_node), sizeof(decl_node), K, &db_t0);
#else
    DB.decl = (decl_node*)malloc(S0 * sizeof(decl_node)); for (uint64_t i = 0; i < TMAX; i++) if (i < S0) { DB.decl[i] = any_node(); if (i == K) N0 = DB.decl[i]; }
#endif
    decl_db d0 = DB;
    decl_ref r = crefl_decl_new(&DB, tag);
    ASSERT(r.db == &DB && r.decl_idx == U0, "[post] a fresh reference");
    ASSERT(DB.decl_offset == U0 + 1, "[post] one more record is in use");
    ASSERT(DB.decl_offset <= DB.decl_size && DB.decl_size >= S0, "[post] the size covers what is in use");
    ASSERT(DB.name == d0.name && DB.name_offset == d0.name_offset && DB.name_size == d0.name_size && DB.name_builtin == d0.name_builtin && DB.decl_builtin == d0.decl_builtin && DB.root_element == d0.root_element, "[frame] nothing else in the database changes");
#ifdef DB_GHOST
    COVER(DB.decl_size > S0, "growth"); COVER(DB.decl_size == S0, "no growth");
    ASSERT(__vf_tlen(DB.decl) / sizeof(decl_node) >= DB.decl_size, "[post] the table has the size it claims");
    const decl_node &n = db_t0;
#else
    const decl_node &n = DB.decl[K];
    const decl_node &f = DB.decl[U0]; ASSERT(f._tag == tag && !f._props && !f._name && !f._next && !f._link && !f._attr && !f._quantity, "[post] the new record has the kind and is otherwise zero");
#endif
    if (K < U0) ASSERT(node_eq(&n, &N0), "[post] records added before are unchanged");
    if (K == U0) ASSERT(n._tag == tag && !n._props && !n._name && !n._next && !n._link && !n._attr && !n._quantity, "[post] the new record has the kind and is otherwise zero");
#ifndef DB_GHOST
    if (U0 == S0) DB.decl[DB.decl_size - 1]._tag = 0;             /* the table has the size it claims */
#endif
}
/* the new record when it is the first one behind the old end of the table */
//@ alloc_decl_last props=C22 fn=crefl_decl_new
ENTRY(alloc_decl_last)
{
    static char none; decl_tag tag = (decl_tag)IN("tag");
    S0 = RANGE("n_size", 1, TMAX);
    DB.name = &none; DB.decl_offset = S0; DB.decl_size = S0;
#ifdef DB_GHOST
    K = S0; db_t0 = any_node(); DB.decl = (decl_node*)__vf_track(S0 * sizeof(decl_node), sizeof(decl_node), K, &db_t0);
#else
    DB.decl = (decl_node*)malloc(S0 * sizeof(decl_node));
#endif
    crefl_decl_new(&DB, tag);
#ifdef DB_GHOST
    const decl_node &n = db_t0; ASSERT(__vf_tlen(DB.decl) / sizeof(decl_node) >= DB.decl_size && DB.decl_size > S0, "[post] the table has grown");
#else
    const decl_node &n = DB.decl[S0];
#endif
    ASSERT(n._tag == tag && !n._props && !n._name && !n._next && !n._link && !n._attr && !n._quantity, "[post] the new record has the kind and is otherwise zero");
}
/* ---- names ------------------------------------------------------------------------------ */
static decl_db DB0; static decl_index IX, IX0;
#ifdef DB_GHOST
STUB size_t stub_strlen(const char *p) { ASSERT(p == TEXT, "[general] the length of the text"); return NL; }
extern "C" __attribute__((used)) void hav_grow() { __vf_modifies(&DB); DB.name_size = nd_u64(); ASSUME(DB.name_size >= S0 && DB.name_size < (uint64_t)1 << 36); }
extern "C" __attribute__((used)) bool inv_grow() { return DB.name_size >= S0 && DB.name_size < (uint64_t)1 << 36 && DB.name_offset == U0 && DB.name == NAME0 && DB.decl == DB0.decl && DB.decl_offset == DB0.decl_offset && DB.decl_size == DB0.decl_size && DB.name_builtin == DB0.name_builtin && DB.decl_builtin == DB0.decl_builtin && DB.root_element == DB0.root_element; }
extern "C" __attribute__((used)) uint64_t var_grow() { return ((uint64_t)1 << 37) - DB.name_size; }
extern "C" __attribute__((used)) void hav_igrow() { __vf_modifies(&IX); IX.name_size = nd_u64(); ASSUME(IX.name_size >= S0 && IX.name_size < (uint64_t)1 << 36); }
extern "C" __attribute__((used)) bool inv_igrow() { return IX.name_size >= S0 && IX.name_size < (uint64_t)1 << 36 && IX.name_offset == U0 && IX.name == NAME0 && IX.entry == IX0.entry && IX.entry_offset == IX0.entry_offset && IX.entry_size == IX0.entry_size; }
extern "C" __attribute__((used)) uint64_t var_igrow() { return ((uint64_t)1 << 37) - IX.name_size; }
#endif
template<class T> static inline void add_name(T *t, decl_id (*fn)(T*, const char*))
{
    S0 = RANGE("n_size", 1, NMAX); U0 = RANGE("n_used", 1, S0); uint64_t len = RANGE("n_len", 0, NMAX);
#ifndef DB_GHOST
    if (len && IN("ok") % 2) { len = S0 - U0 + IN("n_d") % 3; if (len) len--; } ASSUME(len <= NMAX);
#endif
    ASSUME(U0 < (uint64_t)1 << 32);                             /* name references have 32 bits */
    t->name_offset = U0; t->name_size = S0;
#ifdef DB_GHOST
    K = IN("n_k"); NL = len; ASSUME(K < U0 + NL + 1);
    uint64_t j = K >= U0 ? K - U0 : 0; nm_st = (char)IN("byte"); tx_st = (char)IN("byte"); B0 = nm_st; char t0 = tx_st;
    ASSUME((tx_st == 0) == (j == NL));
    t->name = (char*)__vf_track(S0, 1, K, &nm_st); TEXT = (char*)__vf_track(NL + 1, 1, j, &tx_st); NAME0 = t->name;
    DB0 = DB; IX0 = IX;
    decl_id id = fn(t, TEXT);
    ASSERT(tx_st == t0, "[frame] the text is not changed");
    if (NL == 0) {
        ASSERT(id == 0, "[post] the empty name is the reference 0");
        ASSERT(t->name_offset == U0 && t->name_size == S0 && t->name == NAME0 && !__vf_written(), "[post] the empty name adds nothing"); return;
    }
    COVER(t->name != NAME0 && t->name_size > 4 * S0, "growth"); COVER(t->name == NAME0, "no growth");
    ASSERT(id == U0, "[post] a fresh reference");
    ASSERT(t->name_offset == U0 + NL + 1, "[post] the text and its terminator are in use");
    ASSERT(t->name_offset <= t->name_size, "[post] the size covers what is in use");
    ASSERT(__vf_tlen(t->name) >= t->name_size, "[post] the table has the size it claims");
    if (K < U0) ASSERT(nm_st == B0, "[post] names added before are unchanged");
    else ASSERT(nm_st == t0, "[post] the reference holds the text and its terminator");
#else
    char *text = (char*)malloc(len + 1), old[512]; for (uint64_t i = 0; i < NMAX; i++) if (i < len) text[i] = (char)('a' + i % 26); text[len] = 0;
    t->name = (char*)malloc(S0); for (uint64_t i = 0; i < NMAX; i++) if (i < S0) old[i] = t->name[i] = (char)(i * 7);
    decl_id id = fn(t, text);
    if (len == 0) { ASSERT(id == 0 && t->name_offset == U0 && t->name_size == S0, "[post] the empty name adds nothing"); return; }
    ASSERT(id == U0, "[post] a fresh reference");
    ASSERT(t->name_offset == U0 + len + 1, "[post] the text and its terminator are in use");
    ASSERT(t->name_offset <= t->name_size, "[post] the size covers what is in use");
    bool ok = true, same = true;
    for (uint64_t i = 0; i < NMAX; i++) { if (i < U0) ok = ok & (t->name[i] == old[i]); if (i <= len) same = same & (t->name[U0 + i] == text[i]); }
    ASSERT(ok, "[post] names added before are unchanged"); ASSERT(same, "[post] the reference holds the text and its terminator");
    if (t->name_size > S0) t->name[t->name_size - 1] = 0;        /* the table has the size it claims */
#endif
}
//@ alloc_name props=C22 fn=crefl_name_new cuts=crefl_name_new:0:grow stubs=strlen:stub_strlen
ENTRY(alloc_name)
{
    static decl_node none; DB.decl = &none; DB.decl_offset = IN("u"); DB.decl_size = IN("u"); DB.decl_builtin = IN("u"); DB.name_builtin = IN("u"); DB.root_element = (decl_id)IN("u");
    decl_db d0 = DB; add_name(&DB, crefl_name_new);
    ASSERT(DB.decl == d0.decl && DB.decl_offset == d0.decl_offset && DB.decl_size == d0.decl_size && DB.decl_builtin == d0.decl_builtin && DB.name_builtin == d0.name_builtin && DB.root_element == d0.root_element, "[frame] nothing else in the database changes");
}
//@ alloc_entry_name props=C22 fn=crefl_entry_name_new cuts=crefl_entry_name_new:0:igrow stubs=strlen:stub_strlen
ENTRY(alloc_entry_name)
{
    static decl_entry none; IX.entry = &none; IX.entry_offset = IN("u"); IX.entry_size = IN("u");
    decl_index d0 = IX; add_name(&IX, crefl_entry_name_new);
    ASSERT(IX.entry == d0.entry && IX.entry_offset == d0.entry_offset && IX.entry_size == d0.entry_size, "[frame] nothing else in the index changes");
}
/* ---- index entries ---------------------------------------------------------------------- */
#ifdef DB_GHOST
static uint32_t en_st;
#endif
//@ alloc_entry props=C22 fn=crefl_entry_ref
ENTRY(alloc_entry)
{
    static char none; uint64_t idx = RANGE("n_idx", 0, TMAX - 1), w = RANGE("n_w", 0, 8);
    S0 = RANGE("n_size", 1, TMAX); K = RANGE("n_k", 0, TMAX);
    IX.name = &none; IX.name_offset = IN("u"); IX.name_size = IN("u"); IX.entry_offset = IN("u"); IX.entry_size = S0; decl_index d0 = IX;
#ifdef DB_GHOST
    en_st = (uint32_t)IN("u"); uint32_t v0 = en_st;
    IX.entry = (decl_entry*)__vf_track(S0 * sizeof(decl_entry), 4, K * 9 + w, &en_st);
#else
    IX.entry = (decl_entry*)malloc(S0 * sizeof(decl_entry)); uint32_t v0 = (uint32_t)IN("u"); if (K < S0) ((uint32_t*)(IX.entry + K))[w] = v0;
#endif
    decl_ref r; r.db = &DB; r.decl_idx = idx;
    decl_entry_ref e = crefl_entry_ref(&IX, r);
    ASSERT(e.index == &IX && e.offset == idx, "[post] the entry of the declaration");
    ASSERT(IX.entry_size > idx && IX.entry_size >= S0, "[post] the size covers the entry");
    ASSERT(IX.name == d0.name && IX.name_offset == d0.name_offset && IX.name_size == d0.name_size && IX.entry_offset == d0.entry_offset, "[frame] nothing else in the index changes");
#ifdef DB_GHOST
    COVER(IX.entry_size > S0, "growth");
    ASSERT(__vf_tlen(IX.entry) == IX.entry_size * sizeof(decl_entry), "[post] the table has the size it claims");
    uint32_t v = en_st;
#else
    uint32_t v = K < IX.entry_size ? ((uint32_t*)(IX.entry + K))[w] : 0;
#endif
    if (K < S0) ASSERT(v == v0, "[post] entries made before are unchanged");
    else if (K < IX.entry_size) ASSERT(v == 0, "[post] new entries are empty");
}
/* ---- new tables --------------------------------------------------------------------------- */
//@ alloc_new props=C22 fn=crefl_db_new,crefl_index_new unwind=40 track=0
ENTRY(alloc_new)
{
    decl_db *d = crefl_db_new();
    ASSERT(d->decl_offset == 1 && d->name_offset == 1 && d->decl_builtin == 1 && d->name_builtin == 1 && d->root_element == 0, "[post] a new database is empty");
    ASSERT(d->decl_size >= 1 && d->name_size >= 1, "[post] the size covers what is in use");
    ASSERT(d->name[0] == 0, "[post] the reference 0 is the empty name");
    decl_node *n = d->decl;
    ASSERT(!n->_tag && !n->_props && !n->_name && !n->_next && !n->_link && !n->_attr && !n->_quantity, "[post] the record 0 is the void declaration");
    d->decl[d->decl_size - 1]._quantity = 1; d->name[d->name_size - 1] = 0;      /* really that large */
    decl_index *x = crefl_index_new();
    ASSERT(x->name_offset == 1 && x->entry_offset == 1 && x->name[0] == 0 && x->entry_size >= 1, "[post] a new index is empty");
    uint64_t w = IN("n_w"); if (vf_native) w %= x->entry_size * 9; ASSUME(w < x->entry_size * 9);
    ASSERT(((uint32_t*)x->entry)[w] == 0, "[post] new entries are empty");
    x->name[x->name_size - 1] = 0;
}
/* ---- the builtin types --------------------------------------------------------------------- */
static bool text_eq(const char *p, const char *q) { for (int i = 0; i < 12; i++) { if (p[i] != q[i]) return false; if (!q[i]) return true; } return false; }
#ifdef DB_GHOST
static decl_node ND[22], *CUR; static int NREC, NNAM; static decl_id NID[22];
/* contracts of crefl_decl_new, crefl_decl_ptr and crefl_name_new; an addition may move the table */
static void settle() { if (NREC > 0) { ND[NREC - 1] = *CUR; free(CUR); } }
STUB decl_ref stub_decl_new(decl_db *db, decl_tag tag)
{
    ASSERT(db == &DB, "[general] the database of the call"); ASSERT(NREC < 22, "[post] the builtin types"); ASSUME(NREC < 22);
    settle(); CUR = (decl_node*)malloc(sizeof(decl_node)); *CUR = decl_node(); CUR->_tag = tag; NREC++;
    return decl_ref { &DB, DB.decl_offset++ };
}
STUB decl_node *stub_decl_ptr(decl_ref r) { ASSERT(r.db == &DB && NREC > 0 && r.decl_idx == DB.decl_offset - 1, "[general] the record just added"); return CUR; }
STUB decl_id stub_name_new(decl_db *db, const char *name)
{
    ASSERT(db == &DB, "[general] the database of the call"); ASSERT(NNAM < 22, "[post] the builtin types"); ASSUME(NNAM < 22);
    ASSERT(text_eq(name, BUILTIN[NNAM].name), "[post] the name of the builtin type");
    NID[NNAM] = (decl_id)nd_u64(); DB.name_offset += 8; return NID[NNAM++];
}
#endif
//@ alloc_defaults tmo=150 props=C22 fn=crefl_db_defaults unwind=26 gunwind=40 stubs=crefl_decl_new:stub_decl_new,crefl_name_new:stub_name_new,crefl_decl_ptr:stub_decl_ptr
ENTRY(alloc_defaults)
{
#ifdef DB_GHOST
    U0 = IN("n_used"); ASSUME(U0 >= 1 && U0 < (uint64_t)1 << 31);
    DB.decl = (decl_node*)__vf_opaque(); DB.name = (char*)DB.decl; DB.decl_offset = U0; DB.decl_size = U0 + 64; DB.name_offset = 1; DB.root_element = 0;
    crefl_db_defaults(&DB);
    ASSERT(NREC == 22 && NNAM == 22 && DB.decl_offset == U0 + 22, "[post] one declaration for each builtin type");
    ASSERT(DB.decl_builtin == DB.decl_offset && DB.name_builtin == DB.name_offset && DB.root_element == 0, "[post] the builtin types are marked as such");
    settle();
    for (int i = 0; i < 22; i++)
        ASSERT(ND[i]._tag == _decl_intrinsic && ND[i]._props == BUILTIN[i].props && ND[i]._quantity == BUILTIN[i].width && ND[i]._name == NID[i] && !ND[i]._next && !ND[i]._link && !ND[i]._attr, "[post] kind, properties, width and name of the builtin type");
#else
    decl_db *d = crefl_db_new(); crefl_db_defaults(d);
    ASSERT(d->decl_offset == 23 && d->decl_builtin == 23 && d->name_builtin == d->name_offset && d->name_offset <= d->name_size && d->decl_size >= 23 && d->root_element == 0, "[post] the builtin types are marked as such");
    for (int i = 0; i < 22; i++) { decl_node *n = d->decl + 1 + i;
        ASSERT(n->_tag == _decl_intrinsic && n->_props == BUILTIN[i].props && n->_quantity == BUILTIN[i].width && !n->_next && !n->_link && !n->_attr, "[post] kind, properties, width and name of the builtin type");
        ASSERT(text_eq(d->name + n->_name, BUILTIN[i].name), "[post] the name of the builtin type"); }
#endif
}
