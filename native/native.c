/* Native side of the harness interface (harness/sym.h): runs one harness entry
 * against the real library with the values recorded by the symbolic executor.
 *   native ENTRY INPUTS      INPUTS: lines "S name value", "P name value"
 * exit 0 the path ends normally, 5 the inputs do not fit the harness,
 * 10 an assertion fails, 11 a leak, otherwise a sanitizer report or a signal. */
#define _GNU_SOURCE
#define SYM_NO_HOOK
#include "../harness/sym.h"
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <pthread.h>

static struct { char name[64]; uint64_t v; } *S, P_[64];
static size_t nS, iS; static int nP, no_leak;
static long live, total;
#define UP() (__atomic_add_fetch(&total, 1, 0), __atomic_add_fetch(&live, 1, 0))

int croaring_hardware_support(void) { const char *e = getenv("CFG"); return e ? atoi(e) : 0; }

static uint64_t next(const char *name) {
    if (iS >= nS) { printf("EXHAUSTED at %s\n", name); fflush(stdout); _Exit(5); }
    if (strncmp(S[iS].name, name, 63)) { printf("MISMATCH wanted %s got %s\n", name, S[iS].name); fflush(stdout); _Exit(5); }
    return S[iS++].v;
}
uint64_t sym_range_(const char *name, unsigned width, uint64_t lo, uint64_t hi) {
    uint64_t v = next(name); (void)width;
    if (v < lo || v > hi) { printf("RANGE %s\n", name); fflush(stdout); _Exit(5); }
    return v;
}
void sym_bytes_(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)next(name); }
void sym_assume_(bool c) { if (!c) { puts("ASSUME-FALSE"); fflush(stdout); _Exit(5); } }
void sym_assert_(bool c, const char *msg) { if (!c) { printf("ASSERT-FAILED %s\n", msg); fflush(stdout); _Exit(10); } }
void sym_observe_(const char *name, uint64_t v) { printf("OBS %s %llu\n", name, (unsigned long long)v); fflush(stdout); }
uint64_t sym_concretize_(uint64_t v) { return v; }
uint64_t sym_param_(const char *name, uint64_t d) { for (int i = 0; i < nP; i++) if (!strcmp(P_[i].name, name)) return P_[i].v; return d; }
uint64_t sym_live_allocs_(void) { return (uint64_t)live; }
uint64_t sym_total_allocs_(void) { return (uint64_t)total; }
void sym_no_leak_check_(void) { no_leak = 1; }
uint64_t sym_shard_(uint64_t v) { return v; }
uint64_t sym_shard_pick_(const char *name, uint64_t cnt) { return sym_range_(name, 32, 0, cnt - 1); }
void sym_note_(const char *s) { (void)s; }
uint64_t sym_is_symbolic_(uint64_t v) { (void)v; return 0; }
uint64_t sym_min_(uint64_t v) { return v; }
uint64_t sym_max_(uint64_t v) { return v; }

/* threads run one after the other, which is one of the schedules, or, with SYM_THREADS set, as they come (for TSan) */
static pthread_t all_t[16]; static unsigned n_t;
unsigned sym_spawn_(void *(*fn)(void *), void *arg) {
    if (pthread_create(&all_t[n_t], 0, fn, arg)) abort();
    if (!getenv("SYM_THREADS")) pthread_join(all_t[n_t], 0);
    return ++n_t;
}
void sym_join_(unsigned t) { if (getenv("SYM_THREADS")) pthread_join(all_t[t - 1], 0); }

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
#define BIG ((size_t)1 << 31)
void *__wrap_malloc(size_t n) { if (n > BIG) return 0; void *p = __real_malloc(n); if (p) UP(); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (b && a > BIG / b) return 0; void *p = __real_calloc(a, b); if (p) UP(); return p; }
void __wrap_free(void *p) { if (p) __atomic_sub_fetch(&live, 1, 0); __real_free(p); }
void *__wrap_realloc(void *q, size_t n) {
    if (!q) return __wrap_malloc(n);
    if (n == 0) { __wrap_free(q); return 0; }
    if (n > BIG) return 0;
    __atomic_add_fetch(&total, 1, 0);
    return __real_realloc(q, n);
}
int __wrap_posix_memalign(void **o, size_t a, size_t n) {
    if (n > BIG) return ENOMEM;
    int r = __real_posix_memalign(o, a, n); if (!r && *o) UP(); return r;
}
void *__wrap_aligned_alloc(size_t a, size_t n) { if (n > BIG) return 0; void *p = __real_aligned_alloc(a, n); if (p) UP(); return p; }

const char *__asan_default_options(void) {
    return "exitcode=77:detect_leaks=0:max_malloc_fill_size=2147483647:malloc_fill_byte=205:redzone=256:allocator_may_return_null=1:"
           "handle_abort=0:detect_stack_use_after_return=0:detect_container_overflow=0";
}
int main(int argc, char **argv) {
    if (argc < 3) return 6;
    FILE *f = fopen(argv[2], "r");
    if (!f) return 6;
    size_t cap = 0; char k; char nm[64]; unsigned long long v; char line[512];
    while (fgets(line, sizeof line, f)) {
        if (sscanf(line, "%c %63s %llu", &k, nm, &v) != 3) continue;
        if (k == 'P' && nP < 64) { strcpy(P_[nP].name, nm); P_[nP++].v = v; }
        if (k == 'S') {
            if (nS == cap) { cap = cap ? cap * 2 : 64; S = __real_realloc(S, cap * sizeof *S); }
            strcpy(S[nS].name, nm); S[nS++].v = v;
        }
    }
    fclose(f);
    void (*fn)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 6; }
    fn();
    if (live > 0 && !no_leak) { printf("LEAK %ld\n", live); return 11; }
    puts("END");
    return 0;
}
