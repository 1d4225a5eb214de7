#include "sha.h"
#include <crefl/sha256.h>
//@@ src=sha256.cc unwind=70 gunwind=70 gbound=1_to_130_octets_fed_at_chosen_fills objbits=10
static sha256_ctx X;
#ifndef VF_NATIVE
/* ---- the compression function, round by round in lockstep with FIPS 180-4 6.2.2 ---------- */
static uint32_t SW[64], SV[8]; static uint8_t ST; static uint32_t C0[8]; static uint8_t DB_[64];
extern "C" __attribute__((used)) void hav_sched(size_t &i, uint32_t (&W)[64])
{
    __vf_modifies(SW); __vf_modifies(&ST); ST = (uint8_t)nd_u64(); ASSUME(ST >= 16 && ST <= 64); i = ST;
    for (int t = 16; t < 64; t++) SW[t] = (uint32_t)nd_u64();     /* from ST on the ghost is not looked at */
    for (int t = 0; t < 64; t++) W[t] = SW[t];
}
extern "C" __attribute__((used)) bool inv_sched(size_t &i, uint32_t (&W)[64])
{
    bool ok = i == ST && ST >= 16 && ST <= 64;
    for (int t = 0; t < 64; t++) ok = ok & (W[t] == SW[t] || t >= ST);
    return ok;
}
extern "C" __attribute__((used)) void step_sched() { SW[ST] = fs1(SW[ST - 2]) + SW[ST - 7] + fs0(SW[ST - 15]) + SW[ST - 16]; ST++; }
extern "C" __attribute__((used)) uint64_t var_sched() { return 64 - ST; }
static uint8_t SR;
extern "C" __attribute__((used)) void hav_rounds(size_t &i, uint32_t (&H)[8], uint32_t (&W)[64])
{
    __vf_modifies(SV); __vf_modifies(&SR); SR = (uint8_t)nd_u64(); ASSUME(SR <= 64); i = SR;
    for (int t = 0; t < 8; t++) H[t] = SV[t] = (uint32_t)nd_u64();
    for (int t = 0; t < 64; t++) W[t] = SW[t];
}
extern "C" __attribute__((used)) bool inv_rounds(size_t &i, uint32_t (&H)[8], uint32_t (&W)[64])
{
    bool ok = i == SR && SR <= 64;
    for (int t = 0; t < 64; t++) ok = ok & (W[t] == SW[t]);
    for (int t = 0; t < 8; t++) ok = ok & (H[t] == SV[t]);
    return ok;
}
extern "C" __attribute__((used)) void step_rounds()
{
    uint32_t a = SV[0], b = SV[1], c = SV[2], d = SV[3], e = SV[4], f = SV[5], g = SV[6], h = SV[7];
    uint32_t T1 = SW[SR] + h + fS1(e) + fCh(e, f, g) + FK[SR], T2 = fS0(a) + fMaj(a, b, c);
    SV[0] = T1 + T2; SV[1] = a; SV[2] = b; SV[3] = c; SV[4] = d + T1; SV[5] = e; SV[6] = f; SV[7] = g; SR++;
}
extern "C" __attribute__((used)) uint64_t var_rounds() { return 64 - SR; }
#endif
//@ sha_block props=C25 opts=--sat-solver,cadical fn=sha256_transform cuts=_ZL16sha256_transformP10sha256_ctxPKh:2:sched,_ZL16sha256_transformP10sha256_ctxPKh:3:rounds
ENTRY(sha_block)
{
    uint8_t blk[64];
    for (int i = 0; i < 8; i++) X.chain[i] = (uint32_t)IN("u");
    for (int i = 0; i < 64; i++) blk[i] = (uint8_t)IN("byte");
    X.nbytes = 0; X.digestlen = IN("u"); size_t dl = X.digestlen;
#ifdef VF_NATIVE
    uint32_t H[8]; for (int i = 0; i < 8; i++) H[i] = X.chain[i];
    fips_block(H, blk); sha256_update(&X, blk, 64);
    for (int i = 0; i < 8; i++) ASSERT(X.chain[i] == H[i], "[post] the chaining value after a block");
#elif defined(VF_BOUNDED)
    ASSERT(false, "[general] the rounds are the two loops of sha256_transform"); ASSUME(false);      /* 64 rounds unrolled are beyond the solver */
#else
    for (int i = 0; i < 8; i++) C0[i] = SV[i] = X.chain[i];
    for (int t = 0; t < 16; t++) SW[t] = be32_at(blk + 4 * t);
    ST = 16; SR = 0;
    sha256_update(&X, blk, 64);
    ASSERT(ST == 64 && SR == 64, "[post] all 64 rounds");
    for (int i = 0; i < 8; i++) ASSERT(X.chain[i] == C0[i] + SV[i], "[post] the chaining value after a block");
#endif
    ASSERT(X.digestlen == dl && X.nbytes == 64, "[frame] nothing else changes");
}
/* ---- feeding: the message is any octet sequence, of which the octet at position P is followed -- */
static uint64_t N0, P, BC, TOT, DL, CALLS; static uint8_t MB; static uint32_t CH[8];
#ifndef VF_NATIVE
static uint8_t data_st;
/* contract of the compression function (sha_block): it is given block number BC of the message and
 * the chaining value it left last time, and leaves an arbitrary other one */
static inline bool chain_kept() { bool ok = true; for (int i = 0; i < 8; i++) ok = ok & (X.chain[i] == CH[i]); return ok; }
static inline void new_chain() { for (int i = 0; i < 8; i++) X.chain[i] = CH[i] = (uint32_t)nd_u64(); }
STUB void stub_transform(sha256_ctx *c, const unsigned char *buf)
{
    ASSERT(c == &X, "[general] the context of the call");
    ASSERT(chain_kept(), "[post] the chaining value goes from block to block");
    ASSERT(BC < TOT, "[post] no more blocks than the message has");
    if (P / 64 == BC) ASSERT(buf[P % 64] == MB, "[post] the blocks are those of the message");
    BC++; CALLS = 1; new_chain();
}
/* the compression function is reached through its contract, or else this is another program */
static inline void called(uint64_t want) { if (want && !CALLS) { ASSERT(false, "[general] blocks are compressed by sha256_transform"); ASSUME(false); } }
static uint64_t LEN0; static const char *DATA0;
static inline void put(uint8_t *a, uint64_t k, uint8_t v) { for (uint64_t i = 0; i < 64; i++) if (i == k) a[i] = v; }
static inline bool in_block() { return P >= X.nbytes - X.nbytes % 64 && P < X.nbytes; }
extern "C" __attribute__((used)) void hav_feed(size_t &len, const void *&data)
{
    uint64_t done = nd_u64(); ASSUME(done <= LEN0);
    __vf_modifies(&X); __vf_modifies(&BC); __vf_modifies(CH); __vf_modifies(&CALLS);
    len = LEN0 - done; data = DATA0 + done;
    X.nbytes = N0 + done; X.digestlen = DL; BC = X.nbytes / 64; CALLS = BC > N0 / 64; new_chain();
    for (int i = 0; i < 64; i++) X.block[i] = (uint8_t)nd_u64();
    if (in_block()) put(X.block, P % 64, MB);
}
extern "C" __attribute__((used)) bool inv_feed(size_t &len, const void *&data)
{
    return len <= LEN0 && X.nbytes == N0 + (LEN0 - len) && (const char*)data == DATA0 + (LEN0 - len) && BC == X.nbytes / 64 && CALLS == (BC > N0 / 64) && chain_kept() && (!in_block() || X.block[P % 64] == MB) && X.digestlen == DL;
}
extern "C" __attribute__((used)) uint64_t var_feed(size_t &len) { return len; }
#endif
//@ sha_update props=C25 opts=--sat-solver,cadical gcases=48 defs=VF_SMALLCOPY=64 fn=sha256_update stubs=_ZL16sha256_transformP10sha256_ctxPKh:stub_transform gstubs=_ZL16sha256_transformP10sha256_ctxPKh:stub_transform track=1 cuts=sha256_update:0:feed
ENTRY(sha_update)
{
#ifdef VF_NATIVE
    static uint8_t m[1024]; uint8_t out[32], ref[32]; uint64_t n = IN("n") % 400, which = IN("has") & 1, dl = which ? 32 : 28;
    for (uint64_t i = 0; i < n; i++) m[i] = (uint8_t)IN("byte");
    if (which) sha256_init(&X); else sha224_init(&X);
    for (uint64_t at = 0; at < n;) { uint64_t k = IN("split") % 130; if (k > n - at) k = n - at; if (!k) k = 1; sha256_update(&X, m + at, k); at += k; }
    sha256_final(&X, out); fips(ref, (int)dl, m, n);
    for (uint64_t i = 0; i < dl; i++) ASSERT(out[i] == ref[i], "[post] the digest of the message");
#else
#ifdef VF_BOUNDED
    static const uint8_t fills[4] = { 0, 1, 40, 63 }, lens[6] = { 0, 1, 24, 64, 65, 130 };
    N0 = fills[vf_case() % 4] + (vf_case() / 4 % 2 ? 1ull << 33 : 0); uint64_t len = lens[vf_case() / 8 % 6];
#else
    N0 = IN("n"); ASSUME(N0 < 1ull << 60); uint64_t len = IN("len"); ASSUME(len <= 1ull << 40);
#endif
    P = IN("pos"); ASSUME(P < N0 + len); MB = (uint8_t)IN("byte"); DL = IN("dl");
    X.nbytes = N0; X.digestlen = DL; BC = N0 / 64; TOT = (N0 + len) / 64; new_chain();
    for (int i = 0; i < 64; i++) X.block[i] = (uint8_t)nd_u64();
    if (in_block()) put(X.block, P % 64, MB);
#ifdef VF_BOUNDED
    ASSUME(len <= 130); uint8_t *data = (uint8_t*)malloc(130); ASSUME(data); if (P >= N0) data[P - N0] = MB;
#else
    const uint8_t *data = (const uint8_t*)__vf_track(len, 1, P >= N0 ? P - N0 : ~0ull, &data_st); data_st = MB;
#endif
    LEN0 = len; DATA0 = (const char*)data;
    sha256_update(&X, data, len); called(TOT > N0 / 64);
    ASSERT(X.nbytes == N0 + len && X.digestlen == DL, "[post] the length of the message");
    ASSERT(BC == TOT, "[post] every whole block has been compressed");
    ASSERT(chain_kept(), "[post] the chaining value is that of the last block");
    if (in_block()) ASSERT(X.block[P % 64] == MB, "[post] the rest of the message is kept");
#endif
}
//@ sha_final props=C25 fn=sha256_final stubs=_ZL16sha256_transformP10sha256_ctxPKh:stub_transform gstubs=_ZL16sha256_transformP10sha256_ctxPKh:stub_transform
ENTRY(sha_final)
{
#ifdef VF_NATIVE
    static uint8_t m[1024]; uint8_t out[32], ref[32]; uint64_t n = IN("n") % 400, which = IN("has") & 1, dl = which ? 32 : 28;
    for (uint64_t i = 0; i < n; i++) m[i] = (uint8_t)IN("byte");
    if (which) sha256_init(&X); else sha224_init(&X);
    sha256_update(&X, m, n); sha256_final(&X, out); fips(ref, (int)dl, m, n);
    for (uint64_t i = 0; i < dl; i++) ASSERT(out[i] == ref[i], "[post] the digest of the message");
#else
    N0 = IN("n"); ASSUME(N0 < 1ull << 61); DL = IN("has") & 1 ? 32 : 28;
    BC = N0 / 64; TOT = (N0 + 9 + 63) / 64;                       /* FIPS 180-4 5.1.1 */
    P = IN("pos"); ASSUME(P / 64 >= BC && P / 64 < TOT);
    MB = P < N0 ? (uint8_t)IN("byte") : P == N0 ? 0x80 : P / 64 + 1 == TOT && P % 64 >= 56 ? (uint8_t)(N0 * 8 >> (8 * (63 - P % 64))) : 0;
    X.nbytes = N0; X.digestlen = DL; new_chain();
    for (int i = 0; i < 64; i++) X.block[i] = (uint8_t)nd_u64();
    if (P < N0) put(X.block, P % 64, MB);
    uint8_t *res = (uint8_t*)malloc(DL); ASSUME(res);
    sha256_final(&X, res); called(1);
    ASSERT(BC == TOT, "[post] the padded message has been compressed");
    for (uint64_t i = 0; i < 32; i++) if (i < DL) ASSERT(res[i] == (uint8_t)(CH[i / 4] >> (24 - 8 * (i % 4))), "[post] the digest is the chaining value, big endian");
#endif
}
//@ sha_init props=C25 fn=sha224_init,sha256_init
ENTRY(sha_init)
{
    sha256_ctx c; uint64_t which = IN("has") & 1;
    if (which) sha256_init(&c); else sha224_init(&c);
    ASSERT(c.nbytes == 0 && c.digestlen == (which ? 32 : 28), "[post] an empty message, the digest size");
    for (int i = 0; i < 8; i++) ASSERT(c.chain[i] == (which ? I256[i] : I224[i]), "[post] the initial chaining value");
}
