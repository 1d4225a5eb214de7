#define VF_TABLE 1
#include "db.h"
//@@ src=model.cc,types.cc unwind=7 objbits=10 track=1 gbound=databases_of_at_most_5_records gunwind=7
/*
 * Predicates and accessors: executed on the real memory layout, a table of any size of which the
 * record asked for is followed (every other access is range-checked, any store is detected).
 */
int crefl_is_qualifier(decl_ref d);
size_t crefl_type_align(decl_ref d);
static decl_ref D; static decl_node N0; static uint64_t IDX;
static inline const decl_node &pick()
{
    IDX = IN("idx"); mktable(IDX); if (vf_native) IDX %= G.used;
    ASSUME(IDX < G.used);
    D = decl_ref { &DB, IDX };
#ifdef DB_GHOST
    db_t0._tag = (decl_tag)IN("tag"); db_t0._props = (decl_set)IN("u"); db_t0._name = (decl_id)IN("u"); db_t0._next = (decl_id)IN("u"); db_t0._link = (decl_id)IN("u"); db_t0._attr = (decl_id)IN("u"); db_t0._quantity = IN("q");
    N0 = db_t0;
#else
    N0 = G.decl[IDX];
#endif
    return N0;
}
static inline bool is(decl_ref r, uint64_t idx) { return r.db == &DB && r.decl_idx == idx; }
//@ access_predicates props=C32 fn=crefl_is_any,crefl_is_type,crefl_is_none,crefl_is_typedef,crefl_is_intrinsic,crefl_is_set,crefl_is_enum,crefl_is_struct,crefl_is_union,crefl_is_field,crefl_is_array,crefl_is_pointer,crefl_is_constant,crefl_is_function,crefl_is_param,crefl_is_qualifier,crefl_is_attribute,crefl_is_value,crefl_is_archive,crefl_is_source,crefl_is_alias
ENTRY(access_predicates)
{
    decl_tag t = pick()._tag;
#define P(f, k) ASSERT((f(D) != 0) == (t == k), "[post] the kind predicate is true for exactly its kind: " #f)
    P(crefl_is_none, _decl_none); P(crefl_is_typedef, _decl_typedef); P(crefl_is_intrinsic, _decl_intrinsic); P(crefl_is_set, _decl_set);
    P(crefl_is_enum, _decl_enum); P(crefl_is_struct, _decl_struct); P(crefl_is_union, _decl_union); P(crefl_is_field, _decl_field);
    P(crefl_is_array, _decl_array); P(crefl_is_pointer, _decl_pointer); P(crefl_is_constant, _decl_constant); P(crefl_is_function, _decl_function);
    P(crefl_is_param, _decl_param); P(crefl_is_qualifier, _decl_qualifier); P(crefl_is_attribute, _decl_attribute); P(crefl_is_value, _decl_value);
    P(crefl_is_archive, _decl_archive); P(crefl_is_source, _decl_source); P(crefl_is_alias, _decl_alias);
    ASSERT(crefl_is_any(D) != 0, "[post] any");
    bool ty = t == _decl_typedef || t == _decl_intrinsic || t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_array || t == _decl_pointer || t == _decl_qualifier;
    ASSERT((crefl_is_type(D) != 0) == ty, "[post] the type predicate is true for exactly the type kinds");
    ASSERT(tab_same(), "[frame] the database is not modified");
}
//@ access_fields props=C32 fn=crefl_decl_void,crefl_decl_ptr,crefl_decl_tag,crefl_decl_props,crefl_decl_idx,crefl_decl_next,crefl_decl_link,crefl_decl_attr,crefl_decl_qty,crefl_decl_name,crefl_decl_has_name,crefl_root,crefl_lookup,crefl_constant_value,crefl_function_addr,crefl_array_count
ENTRY(access_fields)
{
    const decl_node &n = pick();
    ASSERT(is(crefl_decl_void(D), 0), "[post] the void node");
    ASSERT(crefl_decl_ptr(D) == DB.decl + IDX, "[post] the record's address");
    ASSERT(crefl_decl_tag(D) == n._tag, "[post] tag");
    ASSERT(crefl_decl_props(D) == n._props, "[post] properties");
    ASSERT(crefl_decl_idx(D) == (decl_id)IDX, "[post] index");
    ASSERT(is(crefl_decl_next(D), n._next), "[post] next");
    ASSERT(is(crefl_decl_link(D), n._link), "[post] link");
    ASSERT(is(crefl_decl_attr(D), n._attr), "[post] attributes");
    ASSERT(crefl_decl_qty(D) == n._quantity, "[post] quantity");
    ASSERT(crefl_decl_name(D) == DB.name + n._name, "[post] name");
    ASSERT((crefl_decl_has_name(D) != 0) == (n._name != 0), "[post] has a name");
    ASSERT(is(crefl_root(&DB), DB.root_element), "[post] root");
    uint64_t any = IN("any");
    ASSERT(is(crefl_lookup(&DB, any), any), "[post] lookup");
    ASSERT(crefl_constant_value(D).ux == (n._tag == _decl_constant ? n._quantity : 0), "[post] constant value");
    ASSERT(crefl_function_addr(D) == (n._tag == _decl_function ? (void*)n._quantity : (void*)0), "[post] function address");
    ASSERT(crefl_array_count(D) == (n._tag == _decl_array ? n._quantity : 0), "[post] array count");
    ASSERT(tab_same(), "[frame] the database is not modified");
}
//@ access_refs props=C32 fn=crefl_typedef_type,crefl_field_type,crefl_array_type,crefl_pointer_type,crefl_constant_type,crefl_param_type
ENTRY(access_refs)
{
    const decl_node &n = pick();
#define T(f, k) ASSERT(is(f(D), n._tag == k ? n._link : 0), "[post] the typed reference, or the void node for another kind: " #f)
    T(crefl_typedef_type, _decl_typedef); T(crefl_field_type, _decl_field); T(crefl_array_type, _decl_array);
    T(crefl_pointer_type, _decl_pointer); T(crefl_constant_type, _decl_constant); T(crefl_param_type, _decl_param);
    ASSERT(tab_same(), "[frame] the database is not modified");
}
/* first match: the arbitrary earlier record J does not match */
static uint64_t J, WD; static decl_set PR;
static inline bool match(uint64_t i) { decl_node n = rec(i); return n._tag == _decl_intrinsic && n._quantity == WD && (n._props & PR) == PR; }
#ifdef DB_GHOST
extern "C" __attribute__((used)) void hav_intr(size_t &i) { db_memo(); }
extern "C" __attribute__((used)) bool inv_intr(size_t &i) { return i <= DB.decl_offset && (J >= i || !match(J)); }
extern "C" __attribute__((used)) uint64_t var_intr(size_t &i) { return DB.decl_offset - i; }
#endif
//@ access_intrinsic props=C32 fn=crefl_intrinsic cuts=crefl_intrinsic:0:intr stubs=crefl_decl_tag:stub_decl_tag,crefl_decl_props:stub_decl_props,crefl_decl_qty:stub_decl_qty
ENTRY(access_intrinsic)
{
    mkdb();
    WD = IN("q"); PR = (decl_set)IN("bits"); J = IN("n_j");
    if (vf_native) { J %= G.used; uint64_t t = IN("n_t") % G.used; if (IN("ok") % 2) { G.decl[t]._tag = G.copy[t]._tag = _decl_intrinsic; G.decl[t]._props |= PR; G.copy[t]._props |= PR; G.decl[t]._quantity = G.copy[t]._quantity = WD; } }
    ASSUME(J < G.used);
    decl_ref r = crefl_intrinsic(&DB, PR, WD);
    ASSERT(r.db == &DB && r.decl_idx < G.used, "[post] a reference into the database");
    if (r.decl_idx) {
        ASSERT(match(r.decl_idx), "[post] an intrinsic of that width with all the properties");
        if (J < r.decl_idx) ASSERT(!match(J), "[post] the first such");
        COVER(r.decl_idx > 100 || G.used < 6, "found late");
    } else if (J && !match(0)) ASSERT(!match(J), "[post] the void node only when there is none");
    ASSERT(db_same(), "[frame] the database is not modified");
}
