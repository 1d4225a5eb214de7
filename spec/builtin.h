#pragma once
/* the builtin types, in the order in which crefl_db_defaults adds them */
struct builtin { const char *name; uint64_t width; decl_set props; };
enum { P2 = 1 << 6, PB = 1 << 7, PY = 1 << 8, INT_ = 1, FLT = 2, CPX = 4, SG = 8, UN = 16 };
static const builtin BUILTIN[22] = {
    { "void", 0, PB }, { "bool", 1, _decl_sint | PY }, { "bit", 1, _decl_uint | P2 }, { "sign", 1, _decl_sint | P2 },
    { "ubyte", 8, _decl_uint | P2 }, { "byte", 8, _decl_sint | P2 }, { "ushort", 16, _decl_uint | P2 }, { "short", 16, _decl_sint | P2 },
    { "uint", 32, _decl_uint | P2 }, { "int", 32, _decl_sint | P2 }, { "ulong", 64, _decl_uint | P2 }, { "long", 64, _decl_sint | P2 },
    { "ucent", 128, _decl_uint | P2 }, { "cent", 128, _decl_sint | P2 }, { "half", 16, _decl_float | P2 }, { "float", 32, _decl_float | P2 },
    { "double", 64, _decl_float | P2 }, { "quad", 128, _decl_float | P2 }, { "chalf", 32, _decl_cfloat | P2 }, { "cfloat", 64, _decl_cfloat | P2 },
    { "cdouble", 128, _decl_cfloat | P2 }, { "cquad", 256, _decl_cfloat | P2 } };
