/* A recording memory hook, installed around an entry when the parameter "hook" is set: every block carries which function
 * of the hook gave it out. With the parameter "fail", the solver also chooses which allocation of the entry fails. */
#include <roaring/memory.h>
#include <stdlib.h>
int posix_memalign(void **, size_t, size_t);
static uint64_t hk_n_, hk_live_, hk_own_, hk_t0_, hk_l0_, hk_fail_, hk_failed_; static bool hk_on_;
enum { HK_PLAIN = 0x686f6f01, HK_ALIGNED = 0x686f6f02, HK_GONE = 0x686f6f03 };
static void *hk_put_(char *b, size_t off, uint64_t kind) {
    if (!b) return 0;
    uint64_t *h = (uint64_t *)(b + off) - 2; h[0] = kind; h[1] = off; hk_live_++; hk_n_++;
    return b + off;
}
static char *hk_take_(void *p, uint64_t kind) {
    uint64_t *h = (uint64_t *)p - 2;
    sym_assert_(h[0] == kind, "a block is released through the hook function that matches the one it came from");
    h[0] = HK_GONE; hk_live_--;
    return (char *)p - h[1];
}
static bool hk_down_(void) { if (!hk_fail_ || ++hk_failed_ != hk_fail_) return false; return true; } /* the chosen allocation fails */
static void *hk_malloc_(size_t n) { if (hk_down_()) return 0; return hk_put_((char *)malloc(n + 16), 16, HK_PLAIN); }
static void *hk_calloc_(size_t a, size_t b) { if (hk_down_()) return 0; if (b && a > ((size_t)1 << 40) / b) return 0; return hk_put_((char *)calloc(1, a * b + 16), 16, HK_PLAIN); }
static void hk_free_(void *p) { if (p) free(hk_take_(p, HK_PLAIN)); }
static void *hk_realloc_(void *p, size_t n) {
    if (p && !n) { hk_free_(p); return 0; }
    if (hk_down_()) return 0;
    if (!p) return hk_put_((char *)malloc(n + 16), 16, HK_PLAIN);
    char *b = hk_take_(p, HK_PLAIN), *q = (char *)realloc(b, n + 16);
    if (!q) { hk_put_(b, 16, HK_PLAIN); hk_n_--; return 0; }
    return hk_put_(q, 16, HK_PLAIN);
}
static void *hk_aligned_(size_t al, size_t n) { void *b; if (hk_down_()) return 0; if (al < 16) al = 16; if (posix_memalign(&b, al, n + al)) return 0; return hk_put_((char *)b, al, HK_ALIGNED); }
static void hk_afree_(void *p) { if (p) free(hk_take_(p, HK_ALIGNED)); }
static void *hk_own_malloc_(size_t n) { hk_own_++; return malloc(n); } /* the harness's own blocks */
static void hk_begin_(void) {
    if (!sym_param_("hook", 0)) return;
    roaring_memory_t m = {hk_malloc_, hk_realloc_, hk_calloc_, hk_free_, hk_aligned_, hk_afree_};
    roaring_init_memory_hook(m);
    hk_on_ = true; hk_t0_ = sym_total_allocs_(); hk_l0_ = sym_live_allocs_();
}
static void hk_end_(void) {
    if (!hk_on_) return;
    sym_assert_(hk_live_ == 0, "every block of the hook has been released once the objects are freed");
    sym_assert_(sym_total_allocs_() - hk_t0_ == hk_n_ + hk_own_, "every allocation is made through the hook");
    sym_assert_(sym_live_allocs_() == hk_l0_, "nothing is allocated behind the hook's back");
}
#define malloc(n) hk_own_malloc_(n)
