/* Shared harness library for the 32-bit bitmaps: models of bitmaps as
 * mathematical sets, construction of library bitmaps of every storage form
 * from them, and an independent reader of the library's structures. */
#ifndef HARNESS_H
#define HARNESS_H
#include "sym.h"
#include <roaring/roaring.h>
#include <roaring/roaring_array.h>
#include <roaring/containers/containers.h>
#include <string.h>

#define AR ARRAY_CONTAINER_TYPE
#define BS BITSET_CONTAINER_TYPE
#define RN RUN_CONTAINER_TYPE
#define SH SHARED_CONTAINER_TYPE
#define MAXS 8

/* ---- model of one 64K chunk ----
 * members = (concrete base bits | plus[] | runs) \ minus[]
 * plus[] strictly increasing and outside base, minus[] strictly increasing and inside base. */
typedef struct {
    int kind;
    uint64_t w[1024];
    uint32_t pre[1025]; /* concrete prefix counts of w */
    int np, nm, nr;
    uint16_t plus[MAXS], minus[MAXS], rs[MAXS], re[MAXS];
} chunk_t;

typedef struct {
    int n;
    uint16_t key[6];
    chunk_t *c[6];
} model_t;

static chunk_t g_pool[24];
static int g_npool;

static void ck_init(chunk_t *c, int kind) { memset(c, 0, sizeof *c); c->kind = kind; }
static chunk_t *ck_new(int kind) { chunk_t *c = &g_pool[g_npool++]; ck_init(c, kind); return c; }
static void w_set(uint64_t *w, uint32_t a) { w[a >> 6] |= (uint64_t)1 << (a & 63); }
static void w_clr(uint64_t *w, uint32_t a) { w[a >> 6] &= ~((uint64_t)1 << (a & 63)); }
static int w_get(const uint64_t *w, uint32_t a) { return (w[a >> 6] >> (a & 63)) & 1; }
static void w_range(uint64_t *w, uint32_t lo, uint32_t hi) { /* closed */
    for (uint32_t i = lo; i <= hi;) {
        if ((i & 63) == 0 && i + 63 <= hi) { w[i >> 6] = ~(uint64_t)0; i += 64; }
        else { w_set(w, i); i++; }
    }
}
static void w_clear_range(uint64_t *w, uint32_t lo, uint32_t hi) { for (uint32_t i = lo; i <= hi; i++) w_clr(w, i); }
static int popc(uint64_t x) { return __builtin_popcountll(x); }
static uint32_t w_count(const uint64_t *w) { uint32_t n = 0; for (int i = 0; i < 1024; i++) n += popc(w[i]); return n; }
static void ck_done(chunk_t *c) { uint32_t n = 0; for (int i = 0; i < 1024; i++) { c->pre[i] = n; n += popc(c->w[i]); } c->pre[1024] = n; }

static bool ck_has(const chunk_t *c, uint16_t x) {
    uint64_t h = (c->w[x >> 6] >> (x & 63)) & 1;
    for (int i = 0; i < c->np; i++) h |= (c->plus[i] == x);
    for (int i = 0; i < c->nm; i++) h &= (c->minus[i] != x);
    for (int i = 0; i < c->nr; i++) h |= (uint64_t)(x >= c->rs[i]) & (uint64_t)(x <= c->re[i]);
    return h;
}
static uint32_t ck_card(const chunk_t *c) {
    uint32_t n = c->pre[1024] + c->np - c->nm;
    for (int i = 0; i < c->nr; i++) n += (uint32_t)c->re[i] - c->rs[i] + 1;
    return n;
}
/* number of elements <= x */
static uint32_t ck_rank(const chunk_t *c, uint16_t x) {
    uint64_t m = ~(uint64_t)0 >> (63 - (x & 63));
    uint32_t n = c->pre[x >> 6] + popc(c->w[x >> 6] & m);
    for (int i = 0; i < c->np; i++) n += (c->plus[i] <= x);
    for (int i = 0; i < c->nm; i++) n -= (c->minus[i] <= x);
    for (int i = 0; i < c->nr; i++) {
        uint32_t e = x < c->re[i] ? x : c->re[i];
        n += x >= c->rs[i] ? e - c->rs[i] + 1 : 0;
    }
    return n;
}
static bool m_has(const model_t *m, uint32_t x) {
    bool h = false;
    for (int i = 0; i < m->n; i++) h |= (bool)((m->key[i] == (uint16_t)(x >> 16)) & ck_has(m->c[i], (uint16_t)x));
    return h;
}
static uint64_t m_card(const model_t *m) { uint64_t n = 0; for (int i = 0; i < m->n; i++) n += ck_card(m->c[i]); return n; }
static uint64_t m_rank(const model_t *m, uint32_t x) {
    uint64_t n = 0;
    for (int i = 0; i < m->n; i++) {
        uint16_t hi = x >> 16;
        uint32_t full = ck_card(m->c[i]), part = ck_rank(m->c[i], (uint16_t)x);
        n += m->key[i] < hi ? full : (m->key[i] == hi ? part : 0);
    }
    return n;
}

/* ---- building a library container from a model chunk ---- */
static container_t *ck_build(const chunk_t *c, uint8_t *type) {
    *type = (uint8_t)c->kind;
    if (c->kind == BS) {
        bitset_container_t *b = bitset_container_create();
        for (int i = 0; i < 1024; i++) b->words[i] = c->w[i];
        for (int k = 0; k < c->np; k++) { uint16_t e = c->plus[k]; b->words[e >> 6] |= (uint64_t)1 << (e & 63); }
        for (int k = 0; k < c->nm; k++) { uint16_t e = c->minus[k]; b->words[e >> 6] &= ~((uint64_t)1 << (e & 63)); }
        b->cardinality = (int32_t)ck_card(c);
        return b;
    }
    if (c->kind == AR) {
        int n = (int)ck_card(c), k = 0, ip = 0;
        array_container_t *a = array_container_create_given_capacity(n);
        a->cardinality = n;
        uint16_t lastmin = 0;
        (void)lastmin;
        /* base elements shifted over the removed ones, plus elements merged by window order */
        for (uint32_t i = 0; i < 65536; i++) {
            if (!c->w[i >> 6]) { /* skip empty words, but let plus elements of earlier windows in */
                i |= 63; continue;
            }
            if (!w_get(c->w, i)) continue;
            while (ip < c->np && c->plus[ip] < i) a->array[k++] = c->plus[ip++];
            if (c->nm == 0) { a->array[k++] = (uint16_t)i; continue; }
            bool gone = false;
            for (int j = 0; j < c->nm; j++) gone |= c->minus[j] == i;
            if (gone) continue;
            a->array[k++] = (uint16_t)i;
        }
        while (ip < c->np) a->array[k++] = c->plus[ip++];
        return a;
    }
    /* run: base runs with single-value plus runs merged and minus holes cut */
    run_container_t *r = run_container_create_given_capacity(4096 < 8 ? 8 : 2100);
    int n = 0, ip = 0, im = 0;
    uint32_t i = 0;
    while (i < 65536) {
        if (!w_get(c->w, i)) { i = c->w[i >> 6] == 0 ? (i | 63) + 1 : i + 1; continue; }
        uint32_t s = i;
        while (i < 65536 && w_get(c->w, i)) i = c->w[i >> 6] == ~(uint64_t)0 ? (i | 63) + 1 : i + 1;
        while (ip < c->np && c->plus[ip] < s) { r->runs[n].value = c->plus[ip++]; r->runs[n++].length = 0; }
        uint16_t start = (uint16_t)s;
        while (im < c->nm && c->minus[im] < i) {
            r->runs[n].value = start;
            r->runs[n++].length = (uint16_t)(c->minus[im] - 1 - start);
            start = (uint16_t)(c->minus[im++] + 1);
        }
        r->runs[n].value = start;
        r->runs[n++].length = (uint16_t)(i - 1 - start);
    }
    while (ip < c->np) { r->runs[n].value = c->plus[ip++]; r->runs[n++].length = 0; }
    for (int k = 0; k < c->nr; k++) { r->runs[n].value = c->rs[k]; r->runs[n++].length = (uint16_t)(c->re[k] - c->rs[k]); }
    r->n_runs = n;
    return r;
}
static roaring_bitmap_t *m_build(const model_t *m) {
    roaring_bitmap_t *r = roaring_bitmap_create_with_capacity(m->n);
    for (int i = 0; i < m->n; i++) {
        uint8_t t;
        container_t *c = ck_build(m->c[i], &t);
        ra_append(&r->high_low_container, m->key[i], c, t);
    }
    return r;
}

/* ---- independent reader of library structures ---- */
static const void *rd_unwrap(const void *c, uint8_t *t) {
    if (*t == SH) { const shared_container_t *s = (const shared_container_t *)c; *t = s->typecode; return s->container; }
    return c;
}
static bool ct_has(const void *c, uint8_t t, uint16_t x) {
    c = rd_unwrap(c, &t);
    if (t == BS) { const bitset_container_t *b = (const bitset_container_t *)c; return (b->words[x >> 6] >> (x & 63)) & 1; }
    if (t == AR) {
        const array_container_t *a = (const array_container_t *)c;
        bool h = false;
        if (a->cardinality <= 24) { for (int i = 0; i < a->cardinality; i++) h |= a->array[i] == x; return h; }
        uint64_t w[1024];
        memset(w, 0, sizeof w);
        for (int i = 0; i < a->cardinality; i++) {
            if (sym_is_symbolic_(a->array[i])) h |= a->array[i] == x;
            else w_set(w, a->array[i]);
        }
        return (bool)((w[x >> 6] >> (x & 63)) & 1) | h;
    }
    const run_container_t *r = (const run_container_t *)c;
    bool h = false;
    if (r->n_runs <= 24) {
        for (int i = 0; i < r->n_runs; i++) h |= (bool)((x >= r->runs[i].value) & ((uint32_t)x <= (uint32_t)r->runs[i].value + r->runs[i].length));
        return h;
    }
    uint64_t w[1024];
    memset(w, 0, sizeof w);
    for (int i = 0; i < r->n_runs; i++) {
        rle16_t q = r->runs[i];
        if (sym_is_symbolic_(q.value) | sym_is_symbolic_(q.length)) h |= (bool)((x >= q.value) & ((uint32_t)x <= (uint32_t)q.value + q.length));
        else if ((uint32_t)q.value + q.length <= 65535) w_range(w, q.value, (uint32_t)q.value + q.length);
    }
    return (bool)((w[x >> 6] >> (x & 63)) & 1) | h;
}
static int32_t ct_card(const void *c, uint8_t t) {
    c = rd_unwrap(c, &t);
    if (t == BS) { const bitset_container_t *b = (const bitset_container_t *)c; int32_t n = 0; for (int i = 0; i < 1024; i++) n += popc(b->words[i]); return n; }
    if (t == AR) return ((const array_container_t *)c)->cardinality;
    const run_container_t *r = (const run_container_t *)c;
    int32_t n = 0;
    for (int i = 0; i < r->n_runs; i++) n += (int32_t)r->runs[i].length + 1;
    return n;
}
/* weak: what every reader relies on; strict: also the size limits of each storage form */
static bool ct_wf(const void *c, uint8_t t, bool strict) {
    if (t < 1 || t > 4) return false;
    c = rd_unwrap(c, &t);
    if (t < 1 || t > 3) return false;
    bool ok = true;
    if (t == BS) {
        const bitset_container_t *b = (const bitset_container_t *)c;
        ok = (b->cardinality == ct_card(b, BS)) & (b->cardinality >= 1);
        if (strict) ok &= b->cardinality > DEFAULT_MAX_SIZE;
        return ok;
    }
    if (t == AR) {
        const array_container_t *a = (const array_container_t *)c;
        int n = (int)sym_concretize_((uint32_t)a->cardinality);
        if (n < 1 || n > a->capacity) return false;
        if (strict && n > DEFAULT_MAX_SIZE) return false;
        for (int i = 1; i < n; i++) ok &= a->array[i - 1] < a->array[i];
        return ok;
    }
    const run_container_t *r = (const run_container_t *)c;
    int n = (int)sym_concretize_((uint32_t)r->n_runs);
    if (n < 1 || n > r->capacity) return false;
    uint32_t end = 0;
    for (int i = 0; i < n; i++) {
        uint32_t s = r->runs[i].value, e = s + r->runs[i].length;
        ok &= e <= 65535;
        if (i) ok &= strict ? s > end + 1 : s > end;
        end = e;
    }
    return ok;
}
static bool rd_has(const roaring_bitmap_t *r, uint32_t x) {
    const roaring_array_t *a = &r->high_low_container;
    bool h = false;
    for (int i = 0; i < a->size; i++) h |= (bool)((a->keys[i] == (uint16_t)(x >> 16)) & ct_has(a->containers[i], a->typecodes[i], (uint16_t)x));
    return h;
}
static uint64_t rd_card(const roaring_bitmap_t *r) {
    const roaring_array_t *a = &r->high_low_container;
    uint64_t n = 0;
    for (int i = 0; i < a->size; i++) n += (uint32_t)ct_card(a->containers[i], a->typecodes[i]);
    return n;
}
static bool rd_wf(const roaring_bitmap_t *r, bool strict) {
    const roaring_array_t *a = &r->high_low_container;
    if (a->size < 0 || a->size > a->allocation_size) return false;
    bool ok = true;
    for (int i = 0; i < a->size; i++) {
        if (i) ok &= a->keys[i - 1] < a->keys[i];
        ok &= ct_wf(a->containers[i], a->typecodes[i], strict);
    }
    return ok;
}
/* ---- word view: the 1024 words of a chunk, symbolic only where solver-chosen values can fall ---- */
static void or_bit(uint64_t *w, uint16_t v) {
    uint32_t lo = (uint32_t)sym_min_(v), hi = (uint32_t)sym_max_(v);
    for (uint32_t i = lo >> 6; i <= hi >> 6; i++) w[i] |= (uint64_t)((v >> 6) == i) << (v & 63);
}
static void clr_bit(uint64_t *w, uint16_t v) {
    uint32_t lo = (uint32_t)sym_min_(v), hi = (uint32_t)sym_max_(v);
    for (uint32_t i = lo >> 6; i <= hi >> 6; i++) w[i] &= ~((uint64_t)((v >> 6) == i) << (v & 63));
}
/* bits of word i that are >= v */
static uint64_t ge_mask(uint32_t i, uint32_t v) { uint32_t q = v >> 6; return q < i ? ~(uint64_t)0 : q > i ? 0 : ~(uint64_t)0 << (v & 63); }
static void or_range(uint64_t *w, uint32_t s, uint32_t e) { /* closed, s <= e <= 65535 */
    uint32_t a = (uint32_t)sym_min_(s) >> 6, b = (uint32_t)sym_max_(s) >> 6, c = (uint32_t)sym_min_(e) >> 6, d = (uint32_t)sym_max_(e) >> 6;
    for (uint32_t i = a; i <= d && i < 1024; i++) {
        if (i > b && i < c) w[i] = ~(uint64_t)0;
        else w[i] |= ge_mask(i, s) & ~ge_mask(i, e + 1);
    }
}
static void ck_words(const chunk_t *c, uint64_t *w) {
    for (int i = 0; i < 1024; i++) w[i] = c->w[i];
    for (int i = 0; i < c->np; i++) or_bit(w, c->plus[i]);
    for (int i = 0; i < c->nm; i++) clr_bit(w, c->minus[i]);
    for (int i = 0; i < c->nr; i++) or_range(w, c->rs[i], c->re[i]);
}
static void ct_words(const void *c, uint8_t t, uint64_t *w) {
    c = rd_unwrap(c, &t);
    if (t == BS) { for (int i = 0; i < 1024; i++) w[i] = ((const bitset_container_t *)c)->words[i]; return; }
    memset(w, 0, 8192);
    if (t == AR) {
        const array_container_t *a = (const array_container_t *)c;
        int n = (int)sym_concretize_((uint32_t)a->cardinality);
        for (int i = 0; i < n; i++) { uint16_t v = a->array[i]; if (sym_is_symbolic_(v)) or_bit(w, v); else w_set(w, v); }
        return;
    }
    const run_container_t *r = (const run_container_t *)c;
    int n = (int)sym_concretize_((uint32_t)r->n_runs);
    for (int i = 0; i < n; i++) {
        rle16_t q = r->runs[i];
        uint16_t e = (uint16_t)(q.value + q.length); /* that this does not wrap is part of ct_wf */
        if (sym_is_symbolic_(q.value) | sym_is_symbolic_(e)) or_range(w, q.value, e);
        else if (q.value <= e) w_range(w, q.value, e);
    }
}
/* a set as explicit words per key (concrete keys) */
typedef struct { int n; uint16_t key[6]; uint64_t w[6][1024]; } wset_t;
static void ws_of(const model_t *m, wset_t *s) { s->n = m->n; for (int i = 0; i < m->n; i++) { s->key[i] = m->key[i]; ck_words(m->c[i], s->w[i]); } }
static const uint64_t *ws_at(const wset_t *s, uint16_t k) { for (int i = 0; i < s->n; i++) if (s->key[i] == k) return s->w[i]; return 0; }
static uint64_t w_op(int op, uint64_t a, uint64_t b) { return op == 0 ? a & b : op == 1 ? a | b : op == 2 ? a ^ b : a & ~b; }
static const uint64_t g_zero[1024];
static void ws_comb(int op, const wset_t *a, const wset_t *b, wset_t *o) { /* 0 and, 1 or, 2 xor, 3 andnot */
    int i = 0, j = 0;
    o->n = 0;
    while (i < a->n || j < b->n) {
        const uint64_t *x = g_zero, *y = g_zero;
        uint16_t k;
        if (j >= b->n || (i < a->n && a->key[i] < b->key[j])) { k = a->key[i]; x = a->w[i++]; }
        else if (i >= a->n || b->key[j] < a->key[i]) { k = b->key[j]; y = b->w[j++]; }
        else { k = a->key[i]; x = a->w[i++]; y = b->w[j++]; }
        o->key[o->n] = k;
        for (int q = 0; q < 1024; q++) o->w[o->n][q] = w_op(op, x[q], y[q]);
        o->n++;
    }
}
static uint32_t w_count_sym(const uint64_t *w) { uint32_t n = 0; for (int i = 0; i < 1024; i++) n += popc(w[i]); return n; }
static uint64_t ws_card(const wset_t *s) { uint64_t n = 0; for (int i = 0; i < s->n; i++) n += w_count_sym(s->w[i]); return n; }
/* the stored elements are exactly those of s */
static bool rd_is(const roaring_bitmap_t *r, const wset_t *s) {
    static uint64_t w[1024];
    const roaring_array_t *a = &r->high_low_container;
    bool ok = true;
    for (int i = 0; i < s->n; i++) {
        const uint64_t *got = g_zero;
        for (int j = 0; j < a->size; j++) if (a->keys[j] == s->key[i]) { ct_words(a->containers[j], a->typecodes[j], w); got = w; }
        uint64_t d = 0;
        for (int q = 0; q < 1024; q++) d |= got[q] ^ s->w[i][q];
        ok &= d == 0;
    }
    for (int j = 0; j < a->size; j++) ok &= ws_at(s, a->keys[j]) != 0;
    return ok;
}
static bool rd_is_model(const roaring_bitmap_t *r, const model_t *m) { static wset_t s; ws_of(m, &s); return rd_is(r, &s); }
/* the bitmap is well formed and reports its own size correctly */
#define CHECK_OK(r, what) do { CHECK(rd_wf(r, false), what ": stored chunks are sorted, exact and non-empty"); \
    CHECK(roaring_bitmap_get_cardinality(r) == rd_card(r), what ": reported cardinality is the number of elements"); } while (0)
#define CHECK_VALID(r, what) do { const char *why_ = 0; CHECK(roaring_bitmap_internal_validate(r, &why_), what ": internal_validate accepts the bitmap"); \
    CHECK(rd_wf(r, true), what ": representation invariants hold"); } while (0)

/* ---- shapes of one chunk ----
 * win selects where the symbolic values of big chunks live: 0 across a word border in the middle,
 * 1 at the very end of the chunk, 2 at its start. */
static void win_bounds(int win, uint32_t *lo, uint32_t *hi) {
    uint32_t half = (uint32_t)P("win", 4);
    if (win == 0) { *lo = 0x1240 - half; *hi = 0x1240 + half - 1; }
    else if (half < 2) half = 2; /* room for a value and a gap */
    if (win == 1) { *lo = 65536 - 2 * half; *hi = 65535; }
    else if (win == 2) { *lo = 0; *hi = 2 * half - 1; }
}
/* a value around one of three places: 0 the start of the chunk, 1 across a word border, 2 the end of the chunk */
static uint16_t sym_at(int place, const char *nm) {
    uint32_t h = (uint32_t)P("near", 4);
    uint32_t lo = place == 0 ? 0 : place == 1 ? 0x1240 - h : 65536 - 2 * h;
    return SYM16(nm, lo, lo + 2 * h - 1);
}
static void sym_sorted(uint16_t *v, int n, uint32_t lo, uint32_t hi, const char *nm) {
    for (int i = 0; i < n; i++) v[i] = SYM16(nm, lo, hi);
    for (int i = 1; i < n; i++) ASSUME(v[i - 1] < v[i]);
}
/* n increasing values, the i-th around place pl[i] */
static void sym_places(uint16_t *v, int n, const char *pl, const char *nm) {
    for (int i = 0; i < n; i++) v[i] = sym_at(pl[i] - '0', nm);
    for (int i = 1; i < n; i++) if (pl[i] == pl[i - 1]) ASSUME(v[i - 1] < v[i]);
}
/* a run inside one place is chosen by start and length, one across places by start and end */
static void sym_runs(chunk_t *c, int n, uint32_t lo, uint32_t hi, const char *nm) {
    c->nr = n;
    for (int i = 0; i < n; i++) {
        c->rs[i] = SYM16(nm, lo, hi); uint16_t len = SYM16(nm, 0, hi - lo);
        ASSUME((uint32_t)c->rs[i] + len <= hi);
        c->re[i] = (uint16_t)(c->rs[i] + len);
    }
    for (int i = 1; i < n; i++) ASSUME((uint32_t)c->re[i - 1] + 1 < c->rs[i]);
}
static void sym_run_places(chunk_t *c, int n, const char *pl, const char *nm) {
    uint32_t h = (uint32_t)P("near", 4);
    c->nr = n;
    for (int i = 0; i < n; i++) {
        c->rs[i] = sym_at(pl[2 * i] - '0', nm);
        if (pl[2 * i] != pl[2 * i + 1]) { c->re[i] = sym_at(pl[2 * i + 1] - '0', nm); continue; }
        uint16_t len = SYM16(nm, 0, 2 * h - 1);
        ASSUME((uint32_t)c->rs[i] + len <= (pl[2 * i] == '0' ? 2 * h - 1 : pl[2 * i] == '1' ? 0x1240 + h - 1 : 65535));
        c->re[i] = (uint16_t)(c->rs[i] + len);
    }
    for (int i = 1; i < n; i++) if (pl[2 * i - 1] == pl[2 * i]) ASSUME((uint32_t)c->re[i - 1] + 1 < c->rs[i]);
}
/* brings the concrete base to exactly n elements by adding or dropping values in [lo,hi] */
static void ck_fit(chunk_t *c, uint32_t n, uint32_t lo, uint32_t hi) {
    uint32_t k = w_count(c->w);
    for (uint32_t i = hi; k > n && i > lo; i--) if (w_get(c->w, i)) { w_clr(c->w, i); k--; }
    for (uint32_t i = lo; k < n && i <= hi; i++) if (!w_get(c->w, i)) { w_set(c->w, i); k++; }
}
enum { S_A1, S_A2, S_A3, S_R1, S_R2, S_AMID, S_A4096, S_B4097, S_BDENSE, S_RMANY, S_BFULL, S_RFULL, S_RHOLE, S_BHALF, S_ARUN, S_R2047, S_BMIX, S_A4095, N_SHAPES };
/* spread: how far the solver-chosen values of a small shape reach.  2: any 16-bit value, 1: around the start,
 * a word border and the end of the chunk, 0: the window only */
static int shape_spread(int other) { return other <= S_A3 ? 2 : other <= S_R2 ? 1 : 0; }
/* a window for added values: nothing of the base in it or next to it */
static void ck_gap(chunk_t *c, uint32_t lo, uint32_t hi) { w_clear_range(c->w, lo ? lo - 1 : 0, hi < 65535 ? hi + 1 : 65535); }
static chunk_t *ck_shape(int s, int side, int win, int spread, const char *nm) {
    uint32_t lo, hi, fl = 0x4000, fh = 0xBFFF; /* fit region, away from all windows */
    win_bounds(win, &lo, &hi);
    chunk_t *c = ck_new(AR);
    uint32_t wl = spread == 2 ? 0 : (lo > 2 ? lo - 2 : 0), wh = spread == 2 ? 65535 : (hi < 65533 ? hi + 2 : 65535);
    switch (s) {
        case S_A1: case S_A2: case S_A3: {
            static const char *const pl[3][4] = {{"0", "1", "2", "1"}, {"11", "02", "12", "00"}, {"111", "012", "002", "222"}};
            c->np = s - S_A1 + 1;
            if (spread == 1 && s == S_A3 && !P("full", 0)) { /* two free values around a fixed one */
                c->plus[0] = sym_at(PICK("layout", 2), nm); c->plus[1] = 0x3000; c->plus[2] = sym_at(2, nm);
                break;
            }
            if (spread == 1) sym_places(c->plus, c->np, pl[c->np - 1][PICK("layout", 2 + (s == S_A1))], nm);
            else if (spread == 0 && s == S_A3 && !P("full", 0)) { c->plus[0] = 3; sym_sorted(c->plus + 1, 2, wl > 4 ? wl : 4, wh, nm); }
            else sym_sorted(c->plus, c->np, wl, wh, nm);
            break; }
        case S_R1: case S_R2: {
            static const char *const pl[2][6] = {{"11", "02", "01", "12", "00", "22"}, {"1111", "0022", "0112", "0122", "0001", "1222"}};
            int n = s - S_R1 + 1;
            c->kind = RN;
            if (s == S_R2 && !P("full", 0)) { /* [fixed, x] and [y, fixed], x and y free */
                static const char *const fl[3] = {"11", "02", "12"};
                uint16_t v[2];
                if (spread) sym_places(v, 2, fl[PICK("layout", P("layouts", 3))], nm);
                else sym_sorted(v, 2, lo ? lo : 1, hi < 65535 ? hi : 65534, nm);
                ASSUME((uint32_t)v[0] + 1 < v[1]);
                c->nr = 2; c->re[0] = v[0]; c->rs[1] = v[1];
                c->rs[0] = (uint16_t)(lo > 20 && !spread ? lo - 20 : 0); c->re[1] = (uint16_t)(hi < 65515 && !spread ? hi + 20 : 65535);
                break;
            }
            if (spread) sym_run_places(c, n, pl[n - 1][PICK("layout", P("layouts", 3))], nm); else sym_runs(c, n, wl, wh, nm);
            break; }
        case S_AMID: /* some 40 values plus one chosen by the solver */
            for (uint32_t i = 0; i < 40; i++) w_set(c->w, (i * 1601 + 7 + side * 3) & 65535);
            for (uint32_t i = lo > 40 ? lo - 40 : 0; i < lo; i += 3 + side) w_set(c->w, i);
            ck_gap(c, lo, hi);
            c->np = 1; sym_sorted(c->plus, 1, lo, hi, nm); break;
        case S_A4096: case S_A4095:
            for (uint32_t i = 0; i < 65536; i += 15 + side) w_set(c->w, i);
            ck_gap(c, lo, hi); ck_fit(c, s == S_A4096 ? 4095 : 4094, fl, fh);
            c->np = 1; sym_sorted(c->plus, 1, lo, hi, nm); break;
        case S_B4097:
            c->kind = BS;
            for (uint32_t i = 0; i < 65536; i += 15 + side) w_set(c->w, i);
            ck_gap(c, lo, hi); ck_fit(c, 4096, fl, fh);
            c->np = 1; sym_sorted(c->plus, 1, lo, hi, nm); break;
        case S_BDENSE: /* everything except two solver-chosen holes */
            c->kind = BS; w_range(c->w, 0, 65535);
            c->nm = 2; sym_sorted(c->minus, 2, lo, hi, nm); break;
        case S_RMANY:
            c->kind = RN;
            for (uint32_t i = 0; i < 30; i++) w_range(c->w, i * 2111 + side * 5, i * 2111 + side * 5 + 1 + (i * 37) % 1500);
            ck_gap(c, lo, hi);
            c->np = 1; sym_sorted(c->plus, 1, lo, hi, nm); break;
        case S_BFULL: c->kind = BS; w_range(c->w, 0, 65535); break;
        case S_RFULL: c->kind = RN; w_range(c->w, 0, 65535); break;
        case S_RHOLE: /* full except one solver-chosen value strictly inside */
            c->kind = RN; w_range(c->w, 0, 65535); c->nm = 1;
            sym_sorted(c->minus, 1, lo ? lo : 1, hi < 65535 ? hi : 65534, nm);
            break;
        case S_BHALF: /* low half on side 0, high half on side 1, plus one value */
            c->kind = BS; if (side) w_range(c->w, 32768, 65535); else w_range(c->w, 0, 32767);
            c->nm = 0;
            if (w_get(c->w, lo)) { c->nm = 1; sym_sorted(c->minus, 1, lo, hi, nm); }
            else { c->np = 1; sym_sorted(c->plus, 1, lo, hi, nm); }
            break;
        case S_ARUN: /* array of consecutive values, worth a run */
            w_range(c->w, 0x1100 + side * 64, 0x14ff - side * 32); if (!win) ck_gap(c, lo, hi);
            if (!win || lo < 0x1100 || lo > 0x14ff) { c->np = 1; sym_sorted(c->plus, 1, lo, hi, nm); }
            break;
        case S_R2047:
            c->kind = RN;
            for (uint32_t i = 0; i < 65536; i += 32) w_range(c->w, i + side * 2, i + side * 2 + 1 + (i >> 5) % 5);
            ck_gap(c, lo, hi);
            { /* exactly 2046 base runs */
                uint32_t nr = 0;
                for (uint32_t i = 0; i < 65536; i++) nr += w_get(c->w, i) && (i == 0 || !w_get(c->w, i - 1));
                for (uint32_t i = 0x8000; nr > 2046; i += 32) { w_clear_range(c->w, i, i + 31); nr--; }
                for (uint32_t i = 0x8000 + 18; nr < 2046; i += 32) { w_set(c->w, i); nr++; }
            }
            c->np = 1; sym_sorted(c->plus, 1, lo, hi, nm); break;
        case S_BMIX: /* about half of the bits, irregular words, one added and one removed value */
            c->kind = BS;
            for (int i = 0; i < 1024; i++) c->w[i] = 0x9E3779B97F4A7C15ull * (uint64_t)(i + 1 + side * 77);
            ck_gap(c, lo, hi); c->np = 1; sym_sorted(c->plus, 1, lo, hi, nm); break;
    }
    ck_done(c);
    return c;
}
/* n chunks with arbitrary increasing keys; kind 0: any single values, 1: one run and single values, 2: a full run and single values
 * in a window, 3: single values in a window */
static void m_sym(model_t *m, int n, int kind, const char *nm) {
    m->n = n;
    for (int i = 0; i < n; i++) m->key[i] = SYM16("key", 0, 65535);
    for (int i = 1; i < n; i++) ASSUME(m->key[i - 1] < m->key[i]);
    for (int i = 0; i < n; i++) {
        chunk_t *c = m->c[i] = ck_new(AR);
        if ((kind == 1 || kind == 2) && i == 0) {
            c->kind = RN; c->nr = 1; c->rs[0] = 0; c->re[0] = 65535;
            if (kind == 1) { c->rs[0] = SYM16(nm, 0x1238, 0x1247); c->re[0] = (uint16_t)(c->rs[0] + SYM16(nm, 0, 7)); }
        } else { c->np = 1; c->plus[0] = kind >= 2 ? SYM16(nm, 0x1238, 0x1247) : SYM16(nm, 0, 65535); }
        ck_done(c);
    }
}
static model_t m_one(uint16_t key, chunk_t *c) { model_t m; m.n = 1; m.key[0] = key; m.c[0] = c; return m; }
#endif
