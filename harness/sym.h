/* Interface between a harness and whoever runs it: the symbolic executor
 * (engine/), which implements these as built-ins, or the native runtime
 * (native.c), which feeds recorded values to the same harness. */
#ifndef SYM_H
#define SYM_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sym_range_(const char *name, unsigned width, uint64_t lo, uint64_t hi);
void sym_bytes_(void *p, size_t n, const char *name);
void sym_assume_(bool c);
void sym_assert_(bool c, const char *msg);
void sym_observe_(const char *name, uint64_t v);
uint64_t sym_concretize_(uint64_t v);
uint64_t sym_param_(const char *name, uint64_t dflt);
uint64_t sym_live_allocs_(void);
uint64_t sym_total_allocs_(void); /* allocations made so far, reallocations included */
void sym_no_leak_check_(void);
uint64_t sym_shard_(uint64_t v);
uint64_t sym_shard_pick_(const char *name, uint64_t cnt);
void sym_note_(const char *s);
unsigned sym_spawn_(void *(*fn)(void *), void *arg);
void sym_join_(unsigned tid);
uint64_t sym_is_symbolic_(uint64_t v);
uint64_t sym_min_(uint64_t v); /* tight bounds of v on the current path; natively v itself */
uint64_t sym_max_(uint64_t v);
#ifdef __cplusplus
}
#endif
/* a value the solver chooses, in [lo,hi] */
#define SYM8(n, lo, hi) ((uint8_t)sym_range_(n, 8, lo, hi))
#define SYM16(n, lo, hi) ((uint16_t)sym_range_(n, 16, lo, hi))
#define SYM32(n, lo, hi) ((uint32_t)sym_range_(n, 32, lo, hi))
#define SYM64(n, lo, hi) ((uint64_t)sym_range_(n, 64, lo, hi))
/* a choice: every value 0..n-1 is explored on its own */
#define PICK(n, cnt) ((int)sym_concretize_(sym_range_(n, 32, 0, (cnt)-1)))
/* the same, spread over the processes that share the work */
#define PICKN(n, cnt) ((int)sym_concretize_(sym_shard_pick_(n, cnt)))
/* the next digit of c in base n */
#define DIG(c, n) (dig_ = (c) % (n), (c) /= (n), dig_)
#define ASSUME(c) sym_assume_(c)
#define CHECK(c, m) sym_assert_(c, m)
#define OBS(n, v) sym_observe_(n, v)
#define P(n, d) ((int)sym_param_(n, d))
static int dig_ __attribute__((unused));
#ifdef __cplusplus
#define ENTRY(name) extern "C" void name(void)
#else
#ifndef SYM_NO_HOOK
#include "hook.h"
#endif
#define ENTRY(name) static void name##_e_(void); void name(void) { hk_begin_(); name##_e_(); hk_end_(); } static void name##_e_(void)
#endif
#endif
