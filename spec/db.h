#pragma once
#include "vf.h"
#include <crefl/model.h>
/*
 * Databases of any size.  The declaration table is an array of `size` records of which `used` are
 * in use, the content of the records is arbitrary; references used by the function under
 * verification are assumed in range (what crefl_db_read_mem validates, C21).
 */
#ifdef VF_BOUNDED
#define VF_MAXDECL ((uint64_t)5)
#elif defined(VF_NATIVE)
#define VF_MAXDECL ((uint64_t)48)
#elif defined(VF_SMALL)
#define VF_MAXDECL ((uint64_t)64)
#else
#define VF_MAXDECL ((uint64_t)1 << 32)
#endif
#if !defined(VF_NATIVE) && !defined(VF_BOUNDED)
#define DB_GHOST 1
#endif
struct gdb { uint64_t used, size; decl_node *decl, *copy; decl_db db0; };
static inline bool node_eq(const decl_node *a, const decl_node *b)
{
    return (a->_tag == b->_tag) & (a->_props == b->_props) & (a->_name == b->_name) & (a->_next == b->_next) & (a->_link == b->_link) & (a->_attr == b->_attr) & (a->_quantity == b->_quantity);
}
static decl_db DB; static gdb G;
#ifdef DB_GHOST
/* the table as a partial function: a record is chosen when it is first looked at and stays */
#ifndef DBN
#define DBN 5
#endif
static uint64_t db_idx[DBN]; static decl_node db_rec[DBN]; static int db_n;
static inline decl_node rec(uint64_t idx)
{
    ASSERT(idx < G.used, "[pre] the reference is in range"); ASSUME(idx < G.used);
    decl_node r; bool have = false;
    uint64_t a = nd_u64(), b = nd_u64(), c = nd_u64();
    r._tag = (decl_tag)a; r._props = (decl_set)(a >> 32); r._name = (decl_id)b; r._next = (decl_id)(b >> 32); r._link = (decl_id)c; r._attr = (decl_id)(c >> 32); r._quantity = nd_u64();
    ASSUME(r._next < G.used && r._link < G.used && r._attr < G.used);
    for (int i = 0; i < DBN; i++) if (i < db_n && db_idx[i] == idx) { r = db_rec[i]; have = true; }
    if (have) return r;
    ASSERT(db_n < DBN, "[limit] records looked at"); ASSUME(db_n < DBN);
    for (int i = 0; i < DBN; i++) if (i == db_n) { db_idx[i] = idx; db_rec[i] = r; }
    db_n++;
    return r;
}
/* the memo of the (fixed, arbitrary) table grows; that is no effect of the loop */
static inline void db_memo() { __vf_modifies(db_idx); __vf_modifies(db_rec); __vf_modifies(&db_n); }
static inline decl_node rec(decl_ref d) { ASSERT(d.db == &DB, "[general] the database of the call"); return rec(d.decl_idx); }
/* contracts of the accessors (enforced in access.cc) */
STUB decl_tag stub_decl_tag(decl_ref d) { return rec(d)._tag; }
STUB decl_set stub_decl_props(decl_ref d) { return rec(d)._props; }
STUB decl_sz stub_decl_qty(decl_ref d) { return rec(d)._quantity; }
STUB decl_ref stub_decl_next(decl_ref d) { return decl_ref { d.db, rec(d)._next }; }
STUB decl_ref stub_decl_link(decl_ref d) { return decl_ref { d.db, rec(d)._link }; }
STUB decl_ref stub_decl_attr(decl_ref d) { return decl_ref { d.db, rec(d)._attr }; }
#else
static inline const decl_node &rec(uint64_t idx) { return G.decl[idx]; }
#endif
static inline void mkdb(bool table = false)
{
    decl_db *db = &DB; gdb *g = &G;
    g->used = IN("n_used"); g->size = IN("n_more");
    if (vf_native) { g->used = 1 + g->used % (VF_MAXDECL - 1); g->size = g->used + g->size % 4; }
    ASSUME(g->used >= 1 && g->used <= g->size && g->size <= VF_MAXDECL);
    g->copy = 0;
#ifdef DB_GHOST
    g->decl = table ? 0 : (decl_node*)__vf_opaque();        /* reached through the accessors only */
#else
    g->decl = (decl_node*)malloc(VF_MAXDECL * sizeof(decl_node)); g->copy = (decl_node*)malloc(VF_MAXDECL * sizeof(decl_node));
    for (uint64_t i = 0; i < VF_MAXDECL; i++) { decl_node *d = g->decl + i; memset((void*)d, 0, sizeof *d);
        if (i >= g->used) { d->_tag = 77; continue; }
        d->_tag = IN("small") % 20; d->_props = IN("bits"); d->_name = IN("small") % 32; d->_attr = IN("small") % g->used;
        d->_link = IN("small") % g->used; d->_quantity = IN("q");
        uint64_t nx = IN("small"); d->_next = vf_native ? (i + 1 < g->used && nx % 4 ? i + 1 + nx / 4 % (g->used - i - 1) : 0) : nx;
        if (!vf_native) ASSUME(d->_next < g->used && (d->_next > i || !d->_next));       /* finite chains */
    }
    for (uint64_t i = 0; i < VF_MAXDECL; i++) g->copy[i] = g->decl[i];
#endif
    db->decl = g->decl; db->decl_offset = g->used; db->decl_size = g->size; db->decl_builtin = 1;
    db->name = 0; db->name_offset = db->name_size = db->name_builtin = 1; db->root_element = 0;
    g->db0 = *db;
}
/* nothing in the database has changed (with the accessors by contract no record can be reached) */
static inline bool db_same()
{
    const decl_db *db = &DB; const gdb *g = &G;
    if (db->decl != g->db0.decl || db->decl_offset != g->db0.decl_offset || db->decl_size != g->db0.decl_size || db->decl_builtin != g->db0.decl_builtin ||
        db->name != g->db0.name || db->name_offset != g->db0.name_offset || db->name_size != g->db0.name_size || db->name_builtin != g->db0.name_builtin || db->root_element != g->db0.root_element) return false;
#ifndef DB_GHOST
    for (uint64_t i = 0; i < VF_MAXDECL; i++) if (!node_eq(g->decl + i, g->copy + i)) return false;
#endif
    return true;
}
/* the same, on the real memory: one record (db_t0, number db_tk) of the table is followed */
#ifdef DB_GHOST
static decl_node db_t0; static uint64_t db_tk;
#endif
static inline void mktable(uint64_t k)
{
#ifdef DB_GHOST
    mkdb(true);
    db_tk = k;
    G.decl = (decl_node*)__vf_track(G.size * sizeof(decl_node), sizeof(decl_node), db_tk, &db_t0);
    static char nm; DB.name = &nm; DB.root_element = (decl_id)nd_u64();
    DB.decl = G.decl; G.db0 = DB;
#else
    mkdb();
#endif
}
static inline bool tab_same() { return db_same() && !__vf_written(); }
