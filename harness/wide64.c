#include "h.h"
#include <roaring/roaring64.h>
/* 64-bit bitmaps of many chunks: every node size of the index tree, keys that differ at a chosen level, neighbours above and below it.
 * The keys are fixed, sorted; a chunk is one closed range or two values; look-ups, seeks, operands and ranges have a solver-chosen key byte. */
typedef roaring64_bitmap_t r64;
#define MAXK 264
typedef struct { int n; uint64_t key[MAXK]; uint16_t s[MAXK][2], e[MAXK][2]; int nr[MAXK]; } fm_t;
static fm_t A, B;
static bool fm_has(const fm_t *m, uint64_t x) { bool h = false; for (int i = 0; i < m->n; i++) for (int k = 0; k < m->nr[i]; k++) h |= (bool)((m->key[i] == x >> 16) & ((uint16_t)x >= m->s[i][k]) & ((uint16_t)x <= m->e[i][k])); return h; }
static uint64_t fm_card(const fm_t *m) { uint64_t n = 0; for (int i = 0; i < m->n; i++) for (int k = 0; k < m->nr[i]; k++) n += (uint64_t)m->e[i][k] - m->s[i][k] + 1; return n; }
static uint64_t fm_rank(const fm_t *m, uint64_t x) { /* elements <= x */
    uint64_t n = 0, h = x >> 16; uint16_t l = (uint16_t)x;
    for (int i = 0; i < m->n; i++) for (int k = 0; k < m->nr[i]; k++) {
        uint32_t s = m->s[i][k], e = m->e[i][k], t = l < e ? l : e;
        n += m->key[i] < h ? e - s + 1 : m->key[i] == h && l >= s ? t - s + 1 : 0;
    }
    return n;
}
static void fm_add(fm_t *m, uint64_t key, int i) {
    int j = m->n++;
    for (; j > 0 && m->key[j - 1] > key; j--) { m->key[j] = m->key[j - 1]; m->nr[j] = m->nr[j - 1]; for (int k = 0; k < 2; k++) { m->s[j][k] = m->s[j - 1][k]; m->e[j][k] = m->e[j - 1][k]; } }
    m->key[j] = key; m->nr[j] = 1;
    if (i % 3 == 0) m->s[j][0] = m->e[j][0] = (uint16_t)(i * 977 + 5);
    else if (i % 3 == 1) { m->s[j][0] = (uint16_t)(i * 31 + 60); m->e[j][0] = (uint16_t)(m->s[j][0] + 2 + i % 5); }
    else { m->nr[j] = 2; m->s[j][0] = m->e[j][0] = (uint16_t)(100 + i); m->s[j][1] = m->e[j][1] = (uint16_t)(20000 + i); }
}
/* the byte of child i of f: pat 0 spread from 0 to 255, 1 scattered, 2 dense from 0, 3 dense up to 255 */
static uint64_t f_byte(int pat, int f, int i) { return pat == 0 ? (f == 1 ? 255 : (uint64_t)(i * 255 / (f - 1))) : pat == 1 ? (uint64_t)(i * 37 + 11) & 255 : pat == 2 ? (uint64_t)i : (uint64_t)(255 - i); }
static uint64_t f_base(int lev) { uint64_t b = 0; for (int j = 0; j < 6; j++) if (j != lev) b |= (uint64_t)(0x21 + j) << (8 * j); return b; }
static void f_fill(fm_t *m, int f, int pat, int lev, bool nb) { /* nb: neighbours under the node above */
    m->n = 0;
    for (int i = 0; i < f; i++) fm_add(m, f_base(lev) | f_byte(pat, f, i) << (8 * lev), i);
    if (nb && lev < 5) { fm_add(m, f_base(lev) + (1ull << (8 * lev + 8)) + (0x80ull << (8 * lev)), 1); fm_add(m, f_base(lev) - (1ull << (8 * lev + 8)) + (0x40ull << (8 * lev)), 2); }
}
static r64 *fm_build(const fm_t *m, int order) { /* order 0: ascending, 1: from both ends, 2: more than needed, the rest removed again */
    r64 *r = roaring64_bitmap_create();
    if (order == 2) for (int i = 0; i < m->n; i++) roaring64_bitmap_add(r, (m->key[i] ^ 0x010000000000ull) << 16 | 3), roaring64_bitmap_add(r, (m->key[i] ^ 1) << 16 | 9);
    for (int j = 0; j < m->n; j++) {
        int i = order ? (j & 1 ? m->n - 1 - j / 2 : j / 2) : j; uint64_t h = m->key[i] << 16;
        for (int k = 0; k < m->nr[i]; k++) if (m->s[i][k] == m->e[i][k]) roaring64_bitmap_add(r, h | m->s[i][k]); else roaring64_bitmap_add_range_closed(r, h | m->s[i][k], h | m->e[i][k]);
    }
    if (order == 2) for (int i = 0; i < m->n; i++) roaring64_bitmap_remove(r, (m->key[i] ^ 0x010000000000ull) << 16 | 3), roaring64_bitmap_remove(r, (m->key[i] ^ 1) << 16 | 9);
    return r;
}
/* a key with any byte at the level; d: same path, or next to it one level above or below */
static uint64_t f_key(int lev, int d, const char *nm) {
    uint64_t k = f_base(lev) | (uint64_t)SYM8(nm, 0, 255) << (8 * lev);
    if (d == 1) k += 1ull << (8 * (lev < 5 ? lev + 1 : 0)); if (d == 2) k -= 1ull << (8 * (lev < 5 ? lev + 1 : 0));
    if (d == 3) k += 1ull << (8 * (lev ? lev - 1 : 5)); if (d == 4) k -= 1ull << (8 * (lev ? lev - 1 : 5));
    return k;
}
static const int FS[8] = {4, 5, 16, 17, 48, 49, 2, 1};
static int fan_case(int *c, int *pat, int *lev) { int nf = P("nf", 6), f = DIG(*c, nf), nl = P("levs", 2), np = P("pats", 2); int l = DIG(*c, nl), h = *c; *pat = DIG(*c, np); if (np < 4) *pat = (*pat * 4 / np + f + h / np + l) % 4; *lev = nl == 6 ? l : (l * 3 + f + *pat) % 6; return FS[f]; }
#define FANS (P("nf", 6) * P("pats", 2) * P("levs", 2))
static uint64_t card;
static void at(const roaring64_iterator_t *it, uint64_t p, bool ret) {
    bool in = (p >= 1) & (p <= card);
    CHECK((roaring64_iterator_has_value(it) == in) & (ret == in), "has_value is true exactly while the iterator is on an element");
    if (in) { uint64_t v = roaring64_iterator_value(it); OBS("cur", v); CHECK(fm_has(&A, v) & (fm_rank(&A, v) == p), "value is the element at the iterator's position"); }
}
ENTRY(fan_iter) { /* a seek, then a step, a read or another seek */
    int c = PICKN("case", FANS * 5), pat, lev, f = fan_case(&c, &pat, &lev), op = c, d = PICK("d", 5);
    f_fill(&A, f, pat, lev, true);
    r64 *r = fm_build(&A, f % 3);
    card = fm_card(&A);
    roaring64_iterator_t *it = roaring64_iterator_create(r); uint64_t p = 1;
    uint64_t y = f_key(lev, d, "b") << 16 | SYM16("y", 0, 65535);
    ASSUME(y >= roaring64_iterator_value(it));
    bool h = roaring64_iterator_move_equalorlarger(it, y); p = fm_rank(&A, y) + !fm_has(&A, y); at(it, p, h);
    if (op == 0) { if (h) { h = roaring64_iterator_advance(it); at(it, p + 1, h); if (h) { h = roaring64_iterator_previous(it); at(it, p, h); } } }
    else if (op == 1) { h = roaring64_iterator_previous(it); at(it, p - 1, h); if (h) { h = roaring64_iterator_previous(it); at(it, p - 2, h); } }
    else if (op == 2) { uint64_t buf[8], left = card + 1 - p, want = left < 7 ? left : 7; buf[7] = 0x77;
        uint64_t got = roaring64_iterator_read(it, buf, 7); CHECK((got == want) & (buf[7] == 0x77), "read returns as many elements as there are, at most count");
        for (int i = 0; i < 7; i++) if ((uint64_t)i < got) CHECK(fm_has(&A, buf[i]) & (fm_rank(&A, buf[i]) == p + (uint64_t)i), "read lists the elements from the current one");
        at(it, p + want, roaring64_iterator_has_value(it)); }
    else if (op == 3) { if (h) { uint64_t z = y + ((uint64_t)SYM8("z", 1, 3) << (16 + 8 * lev)); if (z >= roaring64_iterator_value(it)) { h = roaring64_iterator_move_equalorlarger(it, z); at(it, fm_rank(&A, z) + !fm_has(&A, z), h); } } }
    else { uint64_t i = 0, e = 0, rk = fm_rank(&A, y); bool has = fm_has(&A, y); CHECK(roaring64_bitmap_rank(r, y) == rk, "rank counts the elements up to the value");
        CHECK((roaring64_bitmap_get_index(r, y, &i) == has) & (!has || i + 1 == rk), "get_index is the position of an element"); CHECK(roaring64_bitmap_contains(r, y) == has, "contains is membership");
        uint64_t k = sym_concretize_(rk); bool ok = roaring64_bitmap_select(r, k, &e); CHECK(ok == (k < card), "select succeeds below the cardinality"); if (ok) CHECK(fm_has(&A, e) & (fm_rank(&A, e) == k + 1), "select gives the element at the position"); }
    roaring64_iterator_free(it); roaring64_bitmap_free(r);
}
static bool comb(int op, bool a, bool b) { return op == 0 ? a & b : op == 1 ? a | b : op == 2 ? a ^ b : a & !b; }
ENTRY(fan_alg) { /* form 0: the other side has one chunk with a solver-chosen key, 1: it has another fan at the same level, 2: at another level */
    int nf = P("forms", 3), c = PICKN("case", 8 * nf * FANS), op = DIG(c, 4), inplace = DIG(c, 2), form = DIG(c, nf), pat, lev, f = fan_case(&c, &pat, &lev), swap = (op + f + pat + inplace + form) & 1;
    f_fill(&A, f, pat, lev, form != 1);
    if (form == 0) { B.n = 1; B.nr[0] = 1; B.key[0] = f_key(lev, PICK("d", P("ds", 1)), "b"); B.s[0][0] = 0; B.e[0][0] = SYM16("e", 0, P("emax", 1)); }
    else f_fill(&B, form == 1 ? FS[(f + pat + 1) % 6] : f, (pat + 1) % 4, form == 1 ? lev : (lev + 1) % 6, true);
    r64 *a = fm_build(&A, f % 3), *b;
    if (form == 0) { b = roaring64_bitmap_create(); roaring64_bitmap_add(b, B.key[0] << 16); roaring64_bitmap_add_range_closed(b, B.key[0] << 16, B.key[0] << 16 | B.e[0][0]); } else b = fm_build(&B, pat % 3);
    r64 *p = swap ? b : a, *q = swap ? a : b, *r; const fm_t *mp = swap ? &B : &A, *mq = swap ? &A : &B;
    uint64_t x = form ? (uint64_t[]){A.key[A.n / 2], B.key[B.n / 2], B.key[B.n - 1]}[PICK("xk", 3)] : (uint64_t[]){B.key[0], A.key[A.n / 2]}[PICK("xk", 2)]; x = x << 16 | SYM16("x", 0, 65535);
    uint64_t na = fm_card(&A), nb = fm_card(&B), ni = 0;
    for (int i = 0; i < A.n; i++) for (int j = 0; j < B.n; j++) { if (form && A.key[i] != B.key[j]) continue;
        for (int k = 0; k < A.nr[i]; k++) for (int l = 0; l < B.nr[j]; l++) { uint32_t s = A.s[i][k] > B.s[j][l] ? A.s[i][k] : B.s[j][l], e = A.e[i][k] < B.e[j][l] ? A.e[i][k] : B.e[j][l]; ni += A.key[i] == B.key[j] ? (s <= e ? e - s + 1 : 0) : 0; } }
    uint64_t np = swap ? nb : na;
    if (P("query", 0)) {
        CHECK((roaring64_bitmap_and_cardinality(p, q) == ni) & (roaring64_bitmap_or_cardinality(p, q) == na + nb - ni) & (roaring64_bitmap_xor_cardinality(p, q) == na + nb - 2 * ni) & (roaring64_bitmap_andnot_cardinality(p, q) == np - ni), "cardinalities of combinations");
        CHECK((roaring64_bitmap_intersect(p, q) == (ni != 0)) & (roaring64_bitmap_is_subset(p, q) == (ni == np)) & (roaring64_bitmap_equals(p, q) == ((na == ni) & (nb == ni))), "intersect, is_subset and equals agree with the sets");
    } else {
        if (inplace) { r = p; if (op == 0) roaring64_bitmap_and_inplace(p, q); else if (op == 1) roaring64_bitmap_or_inplace(p, q); else if (op == 2) roaring64_bitmap_xor_inplace(p, q); else roaring64_bitmap_andnot_inplace(p, q); }
        else r = op == 0 ? roaring64_bitmap_and(p, q) : op == 1 ? roaring64_bitmap_or(p, q) : op == 2 ? roaring64_bitmap_xor(p, q) : roaring64_bitmap_andnot(p, q);
        const char *why = 0; CHECK(roaring64_bitmap_internal_validate(r, &why), "internal_validate accepts the result");
        CHECK(roaring64_bitmap_get_cardinality(r) == (op == 0 ? ni : op == 1 ? na + nb - ni : op == 2 ? na + nb - 2 * ni : np - ni), "result has the size of the combination");
        CHECK(roaring64_bitmap_contains(r, x) == comb(op, fm_has(mp, x), fm_has(mq, x)), "result contains exactly the combined elements");
        CHECK(roaring64_bitmap_get_cardinality(q) == fm_card(mq), "the right operand is unchanged");
        if (form) { bool all = true; for (int i = 0; i < A.n; i++) { uint64_t v = A.key[i] << 16 | A.e[i][A.nr[i] - 1]; all &= roaring64_bitmap_contains(r, v) == comb(op, fm_has(mp, v), fm_has(mq, v)); }
            for (int i = 0; i < B.n; i++) { uint64_t v = B.key[i] << 16 | B.s[i][0]; all &= roaring64_bitmap_contains(r, v) == comb(op, fm_has(mp, v), fm_has(mq, v)); }
            CHECK(all, "every chunk of the result is found"); }
        if (!form) CHECK(roaring64_bitmap_contains(q, x) == fm_has(mq, x), "the right operand is unchanged");
        if (!inplace) { CHECK((roaring64_bitmap_contains(p, x) == fm_has(mp, x)) & (roaring64_bitmap_get_cardinality(p) == np), "the left operand is unchanged"); roaring64_bitmap_free(r); }
    }
    roaring64_bitmap_free(a); roaring64_bitmap_free(b);
}
ENTRY(fan_range) { /* ranges over many chunks */
    int c = PICKN("case", FANS * 3), pat, lev, f = fan_case(&c, &pat, &lev), op = c, d = PICK("d", P("ds", 2));
    f_fill(&A, f, pat, lev, true);
    r64 *r = fm_build(&A, f % 3);
    /* one end anywhere, the other at, before or after some chunk */
    uint64_t y = f_key(lev, d, "b") << 16 | SYM16("y", 0, 65535), z = A.key[(int[]){A.n / 2, A.n - 1, 0}[PICK("at", P("ats", 2))]] << 16 | SYM16("z", 60, 130), lo = y < z ? y : z, hi = y < z ? z : y;
    uint64_t n = fm_card(&A), cnt = fm_rank(&A, hi) - fm_rank(&A, lo - 1);
    uint64_t x = (uint64_t[]){y >> 16, A.key[A.n / 2], A.key[A.n - 1]}[PICK("xk", P("xks", 2))] << 16 | SYM16("x", 0, 65535); bool in = (x >= lo) & (x <= hi), want = fm_has(&A, x);
    if (op == 0) { roaring64_bitmap_remove_range_closed(r, lo, hi); want &= !in; n -= cnt; }
    else if (op == 1) CHECK(roaring64_bitmap_range_closed_cardinality(r, lo, hi) == cnt, "range_cardinality counts the elements of the range");
    else CHECK((roaring64_bitmap_contains_range(r, lo, hi) == (fm_rank(&A, hi - 1) - fm_rank(&A, lo - 1) == hi - lo)) & (roaring64_bitmap_intersect_with_range(r, lo, hi + 1) == (cnt != 0)), "contains_range and intersect_with_range agree with the set");
    const char *why = 0; CHECK(roaring64_bitmap_internal_validate(r, &why), "internal_validate accepts the result");
    CHECK(roaring64_bitmap_get_cardinality(r) == n, "get_cardinality counts the elements");
    CHECK(roaring64_bitmap_contains(r, x) == want, "exactly the intended values are stored");
    roaring64_bitmap_free(r);
}
