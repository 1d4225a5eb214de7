/* native reading of the contracts: replays counterexamples and searches for inputs */
#ifndef VF_NATIVE
#define VF_NATIVE
#endif
#include "vf.h"
#include <setjmp.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <signal.h>
#include <time.h>
#include <vector>

vf_reg *vf_reg::head = 0;
static jmp_buf out;
struct shared { uint64_t n; uint64_t in[4096]; char label[256]; int failed; };
static shared *sh;
static std::vector<uint64_t> given; static size_t pos; static bool searching, quiet;
static uint64_t rs;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static uint64_t candidate(const char *name)
{
    bool sz = !strcmp(name, "size") || !strcmp(name, "off") || !strncmp(name, "len", 3) || !strcmp(name, "k") ||
              !strncmp(name, "n_", 2);
    uint64_t r = rnd() % 100;
    if (sz) { if (r < 60) return rnd() % 20; if (r < 90) return rnd() % 64; if (r < 96) return rnd() % 600; return rnd() >> (rnd() % 64); }
    if (!strcmp(name, "byte")) { if (r < 20) return rnd() % 4; if (r < 40) return 0x80 | (rnd() % 16); return rnd() & 0xff; }
    if (r < 20) return rnd() % 260;
    if (r < 60) { unsigned s = rnd() % 64; uint64_t v = ((uint64_t)1 << s) + (rnd() % 3) - 1; return rnd() & 1 ? v : ~v + (rnd() % 3); }
    if (r < 75) { return (rnd() & 0x800fffffffffffffULL) | ((rnd() % 3 ? (uint64_t)(1023 + (int64_t)(rnd() % 130) - 65) : rnd() % 2048) << 52); }
    if (r < 80) return (uint64_t)(rnd() % 2 ? 0x7ff : 0xfff) << 52 | (rnd() % 2 ? 0 : rnd() >> 12);
    return rnd() >> (rnd() % 64);
}
extern "C" uint64_t __vf_in(const char *name)
{
    uint64_t v;
    if (pos < given.size()) v = given[pos++];
    else if (searching) v = candidate(name);
    else v = 0;
    if (sh->n < 4096) sh->in[sh->n] = v;
    sh->n++;
    return v;
}
extern "C" void __vf_assume(bool c) { if (!c) longjmp(out, 1); }
extern "C" void __vf_assert(bool c, const char *l)
{
    if (!c && !sh->failed) { sh->failed = 1; snprintf(sh->label, sizeof(sh->label), "%s", l); longjmp(out, 2); }
}
extern "C" void __vf_cover(bool, const char *) {}
extern "C" uint64_t nd_u64(void) { return 0; }
extern "C" bool __vf_written() { return false; }
extern "C" void *__vf_opaque() { abort(); }
extern "C" uint64_t __vf_tlen(const void*) { return 0; }
extern "C" void __vf_tkill(const void*) {}
extern "C" void __vf_tmove(const void*) {}
extern "C" void __vf_modifies(const void*) {}
extern "C" void *__vf_track(uint64_t, uint64_t, uint64_t, void*) { abort(); }
extern "C" uint64_t __vf_case(void) { return ~0ULL; }
extern "C" uint64_t __vf_ncases(void) { return 0; }

static int one(void (*fn)(void))
{
    sh->n = 0; pos = 0; sh->failed = 0; sh->label[0] = 0;
    int r = setjmp(out);
    if (r == 0) { fn(); return 0; }
    return r;               /* 1 rejected, 2 failed */
}
static void report(const char *how)
{
    printf("{\"failed\": \"%s\", \"how\": \"%s\", \"inputs\": [", sh->label, how);
    for (uint64_t i = 0; i < sh->n && i < 4096; i++) printf("%s%llu", i ? ", " : "", (unsigned long long)sh->in[i]);
    printf("]}\n");
}
/* usage: native ENTRY replay v v v ... | native ENTRY search SECONDS SEED */
int main(int ac, char **av)
{
    sh = (shared*)mmap(0, sizeof(shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    void (*fn)(void) = 0;
    for (vf_reg *r = vf_reg::head; r; r = r->next) if (!strcmp(r->name, av[1])) fn = r->fn;
    if (!fn || ac < 3) return 3;
    bool replay = !strcmp(av[2], "replay");
    if (replay) for (int i = 3; i < ac; i++) given.push_back(strtoull(av[i], 0, 10));
    else { searching = true; }
    uint64_t seed = replay ? 1 : strtoull(av[4], 0, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
    time_t t0 = time(0); int secs = replay ? 1 : atoi(av[3]);
    uint64_t runs = 0;
    do {
        seed += 0x1234567; if (!seed) seed = 1;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            struct rlimit rl = { 20, 20 }; setrlimit(RLIMIT_CPU, &rl);
            alarm(20);
            rs = seed; if (!rs) rs = 1;
            if (!freopen("/dev/null", "w", stdout)) _exit(9);
            int n = replay ? 1 : 3000;
            for (int i = 0; i < n; i++) { int r = one(fn); if (r == 2) _exit(42); if (replay) _exit(r == 1 ? 41 : 0); }
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { report("contract clause violated"); return 1; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 41) { printf("{\"rejected\": true}\n"); return 2; }
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU)) { snprintf(sh->label, sizeof(sh->label), "[term] does not terminate within 20 s"); report("timeout"); return 1; }
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
            snprintf(sh->label, sizeof(sh->label), "[mem] crash or sanitizer report (status %d)", st); report("crash"); return 1; }
        runs++;
    } while (!replay && time(0) - t0 < secs);
    printf("{\"failed\": null, \"batches\": %llu}\n", (unsigned long long)runs);
    return 0;
}
