/*
 * vf.h - the contract vocabulary.  One text, two readings:
 *   verify : compiled to LLVM IR, linked with the real sources, extracted to C and handed to
 *            CBMC; IN() is an arbitrary value, ASSERT() an obligation.
 *   native : (-DVF_NATIVE) compiled against the real sources with ASan/UBSan; IN() reads the
 *            verifier's counterexample (or a search candidate), so that a failed obligation is
 *            replayed on the code that runs.
 */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>

extern "C" {
uint64_t __vf_in(const char *name);            /* logged input                            */
void __vf_assume(bool c);
void __vf_assert(bool c, const char *label);
void __vf_cover(bool c, const char *label);    /* must be reachable with c true (vacuity) */
/* an array of len bytes of which element k (of es bytes, kept in *st) is followed; see prelude.c */
void *__vf_track(uint64_t len, uint64_t es, uint64_t k, void *st);
/* the same with the followed bytes at byte offset a, and the first hn bytes kept in *hst as well */
void *__vf_track2(uint64_t len, uint64_t es, uint64_t a, void *st, uint64_t hn, void *hst);
void *__vf_opaque(void);                         /* memory that is reached through contracts only */
uint64_t __vf_tlen(const void *p);               /* size of the live tracked object at p, or 0 */
void __vf_tkill(const void *p); void __vf_tmove(const void *p);   /* free / revive it */
bool __vf_written(void);                         /* has any tracked object been stored to?  */
void __vf_modifies(const void *p);              /* in hav_*: the loop may modify this object */
uint64_t nd_u64(void);                         /* unlogged arbitrary value (stubs only)   */
uint64_t __vf_case(void);                      /* number of the case being verified (concrete) */
uint64_t __vf_ncases(void);                    /* number of cases the runner goes through */
}

#define ASSUME(c)      __vf_assume(c)
#define ASSERT(c, l)   __vf_assert((c), l)
#define COVER(c, l)    __vf_cover((c), l)
#define IN(n)          __vf_in(n)
#define vf_case()      __vf_case()
#define vf_ncases()    __vf_ncases()

#ifdef VF_NATIVE
enum { vf_native = 1 };
struct vf_reg { const char *name; void (*fn)(void); vf_reg *next; static vf_reg *head;
    vf_reg(const char *n, void (*f)(void)) : name(n), fn(f), next(head) { head = this; } };
#define ENTRY(name) extern "C" void name(void); static vf_reg vf_reg_##name(#name, name); \
    extern "C" void name(void)
#define STUB extern "C" __attribute__((unused))
#define VF_MAXSZ ((uint64_t)4096)
#else
enum { vf_native = 0 };
#define ENTRY(name) extern "C" __attribute__((used)) void name(void)
#define STUB extern "C" __attribute__((used))
/* largest object the proofs range over: user-space addresses are 47 bits, so no real
 * allocation is excluded (CBMC's offsets are 56 bits here) */
#ifdef VF_SMALL
#define VF_MAXSZ ((uint64_t)256)
#else
#define VF_MAXSZ ((uint64_t)1 << 47)
#endif
#endif

/* a memory byte whose (arbitrary) value is logged as an input */
extern "C" uint64_t __vf_log(uint64_t v);
static inline uint8_t vf_byte(uint8_t *p)
{
    if (vf_native) return *p = (uint8_t)__vf_in("byte");
    return (uint8_t)__vf_log(*p);
}
