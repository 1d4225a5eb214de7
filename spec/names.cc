#include "vf.h"
#include <crefl/asn1.h>
#include <crefl/model.h>
//@@ src=asn1.cc,model.cc,types.cc,oid.cc unwind=40
static bool text(const char *p, const char *q) { if (!p) return false; for (int i = 0; i < 32; i++) { if (p[i] != q[i]) return false; if (!q[i]) return true; } return false; }
static const char *const KIND[19] = { "none", "intrinsic", "typedef", "set", "enum", "struct", "union", "field", "array", "pointer",
    "constant", "function", "param", "qualifier", "attribute", "value", "archive", "source", "alias" };
/* X.680 table 1; the crefl spelling of the string types */
static const char *const UNIV[32] = { "reserved", "boolean", "integer", "bit_string", "octet_string", "null", "object_identifier", "object_descriptor",
    "external", "real", "enumerated", "embedded_pdv", "utf8_string", "relative_oid", "reserved_14", "reserved_15", "sequence", "set",
    "numeric_string", "printable_string", "t61_string", "reserved_21", "ia5_string", "utc_time", "generalized_time", "graphic_string",
    "iso646_string", "general_string", "utf32_string", "reserved_29", "utf16_string", "reserved_31" };
//@ names_kind props=C29 fn=crefl_tag_name
ENTRY(names_kind)
{
    for (unsigned t = 0; t < 19; t++) ASSERT(text(crefl_tag_name(t), KIND[t]), "[post] the name of the kind");
    decl_tag t = (decl_tag)IN("tag"); ASSUME(t >= 19);
    ASSERT(text(crefl_tag_name(t), "<unknown>"), "[post] the unknown marker for any other number");
}
//@ names_asn1 props=C29 fn=asn1_tag_name
ENTRY(names_asn1)
{
    for (u64 t = 0; t < 32; t++) ASSERT(text(asn1_tag_name(t), UNIV[t]), "[post] the name of the universal tag");
    u64 t = IN("tag"); ASSUME(t >= 32);
    ASSERT(text(asn1_tag_name(t), "<unknown>"), "[post] the unknown marker for any other number");
}
