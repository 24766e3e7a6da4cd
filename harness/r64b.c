#include "m64.h"
/* D02-D04 and D07: 64-bit bitmaps built from chunks under symbolic 48-bit keys */
static bool comb(int op, bool a, bool b) { return op == 0 ? a & b : op == 1 ? a | b : op == 2 ? a ^ b : a & !b; }
static uint64_t combn(int op, uint64_t a, uint64_t b, uint64_t i) { return op == 0 ? i : op == 1 ? a + b - i : op == 2 ? a + b - 2 * i : a - i; }
static r64 *apply(int op, const r64 *a, const r64 *b) {
    switch (op) { case 0: return roaring64_bitmap_and(a, b); case 1: return roaring64_bitmap_or(a, b);
        case 2: return roaring64_bitmap_xor(a, b); default: return roaring64_bitmap_andnot(a, b); }
}
static void apply_in(int op, r64 *a, const r64 *b) {
    switch (op) { case 0: roaring64_bitmap_and_inplace(a, b); break; case 1: roaring64_bitmap_or_inplace(a, b); break;
        case 2: roaring64_bitmap_xor_inplace(a, b); break; default: roaring64_bitmap_andnot_inplace(a, b); }
}
static void run(int op, int inplace, const m64 *ma, const m64 *mb, uint64_t ni, uint64_t x, uint64_t y) {
    r64 *a = q_build(ma), *b = q_build(mb), *r;
    uint64_t na = q_card(ma), nb = q_card(mb), n = combn(op, na, nb, ni);
    if (inplace) { apply_in(op, a, b); r = a; } else r = apply(op, a, b);
    OBS("card", roaring64_bitmap_get_cardinality(r));
    CHECK(roaring64_bitmap_get_cardinality(r) == n, "result has the size of the combination");
    CHECK(roaring64_bitmap_is_empty(r) == (n == 0), "an empty result is empty");
    CHECK_64(r, "result");
    bool ha = q_has(ma, x), hb = q_has(mb, x);
    CHECK(roaring64_bitmap_contains(r, x) == comb(op, ha, hb), "result contains exactly the combined elements");
    if (!inplace) CHECK((roaring64_bitmap_contains(a, x) == ha) & (roaring64_bitmap_get_cardinality(a) == na), "first input unchanged");
    CHECK((roaring64_bitmap_contains(b, x) == hb) & (roaring64_bitmap_get_cardinality(b) == nb), "second input unchanged");
    /* the result does not share storage with the inputs */
    if (P("after", 1)) {
        roaring64_bitmap_free(b); if (!inplace) roaring64_bitmap_free(a);
        roaring64_bitmap_add(r, y);
        CHECK(roaring64_bitmap_contains(r, y) & (roaring64_bitmap_get_cardinality(r) == n + !comb(op, q_has(ma, y), q_has(mb, y))), "the result can be changed after its inputs are gone");
        roaring64_bitmap_free(r);
    } else { roaring64_bitmap_free(b); if (!inplace) roaring64_bitmap_free(a); roaring64_bitmap_free(r); }
}
static uint64_t inter(const m64 *a, const m64 *b) { /* small chunks: a value, two values or a run */
    uint64_t n = 0;
    for (int i = 0; i < a->n; i++) for (int j = 0; j < b->n; j++) {
        const chunk_t *A = a->c[i], *B = b->c[j]; uint64_t k = 0;
        if (A->np) for (int q = 0; q < A->np; q++) k += ck_has(B, A->plus[q]);
        else if (B->np) for (int q = 0; q < B->np; q++) k += ck_has(A, B->plus[q]);
        else { uint32_t s = A->rs[0] > B->rs[0] ? A->rs[0] : B->rs[0], e = A->re[0] < B->re[0] ? A->re[0] : B->re[0]; k = s <= e ? e - s + 1 : 0; }
        n += a->key[i] == b->key[j] ? k : 0;
    }
    return n;
}
/* key mode and chunk counts: any 48-bit keys for few chunks, one differing byte for more */
ENTRY(q_merge) {
    int maxn = P("maxn", 2), c = PICKN("case", 8 * 4 * (maxn + 1) * (maxn + 1)), op = c % 4, inplace = c / 4 % 2, kind = c / 8 % 4, na, nb;
    c /= 32; na = c % (maxn + 1); nb = c / (maxn + 1);
    int mode = na + nb <= P("any", 2) ? 1 : (c + kind + op) % 3 == 0 ? 0 : (c + kind + op) % 3 == 1 ? 2 : 3;
    m64 ma, mb; q_sym(&ma, na, mode, kind == 2 ? 0 : kind, "a"); q_sym(&mb, nb, mode, kind, "b");
    uint64_t x = mode == 1 ? SYM64("x", 0, UINT64_MAX) : q_key(mode, "xk") << 16 | SYM16("x", 0, 65535);
    run(op, inplace, &ma, &mb, inter(&ma, &mb), x, 0xABCDEF0123456789ull);
}
static const int kshape[] = {S_A2, S_R2, S_AMID, S_A4096, S_B4097, S_RMANY, S_BFULL, S_RFULL, S_BMIX};
static uint64_t winter(chunk_t *A, chunk_t *B) { static uint64_t u[1024], v[1024]; ck_words(A, u); ck_words(B, v); uint64_t n = 0; for (int i = 0; i < 1024; i++) n += (uint64_t)popc(u[i] & v[i]); return n; }
ENTRY(q_kernel) {
    int nsh = P("nsh", 9), c = PICKN("case", 8 * nsh * nsh), op = c % 4, inplace = c / 4 % 2, sa = kshape[c / 8 % nsh], sb = kshape[c / 8 / nsh];
    if (!P("full", 0)) ASSUME((c / 8 + c / 8 / nsh + op + inplace) % 2 == 0);
    uint64_t key = (sa + sb + op) % 3 ? 0x7000ull : 0xFFFFFFFFFFFFull;
    int win = (sa + 2 * sb + op) % 3; uint32_t lo, hi; win_bounds(win, &lo, &hi);
    chunk_t *A = ck_shape(sa, 0, win, 0, "a"), *B = ck_shape(sb, 1, win, 0, "b");
    m64 ma = q_one(key, A), mb = q_one(key, B);
    run(op, inplace, &ma, &mb, winter(A, B), key << 16 | SYM16("x", lo, hi), 7);
}
static void queries(const r64 *a, const r64 *b, uint64_t na, uint64_t nb, uint64_t ni) {
    uint64_t c = roaring64_bitmap_and_cardinality(a, b);
    OBS("and", c);
    CHECK(c == ni, "and_cardinality is the size of the intersection");
    CHECK(roaring64_bitmap_or_cardinality(a, b) == na + nb - ni, "or_cardinality is the size of the union");
    CHECK(roaring64_bitmap_xor_cardinality(a, b) == na + nb - 2 * ni, "xor_cardinality is the size of the symmetric difference");
    CHECK(roaring64_bitmap_andnot_cardinality(a, b) == na - ni, "andnot_cardinality is the size of the difference");
    CHECK(roaring64_bitmap_intersect(a, b) == (ni != 0), "intersect is true exactly when the intersection is not empty");
    CHECK(roaring64_bitmap_is_subset(a, b) == (ni == na), "is_subset is inclusion");
    CHECK(roaring64_bitmap_is_strict_subset(a, b) == ((ni == na) & (na < nb)), "is_strict_subset is proper inclusion");
    CHECK(roaring64_bitmap_equals(a, b) == ((ni == na) & (ni == nb)), "equals is set equality");
}
ENTRY(q_queries) {
    int maxn = P("maxn", 2), c = PICKN("case", 4 * (maxn + 1) * (maxn + 1)), kind = c % 4, na, nb;
    c /= 4; na = c % (maxn + 1); nb = c / (maxn + 1);
    int mode = na + nb <= P("any", 2) ? 1 : (c + kind) % 3 == 0 ? 0 : (c + kind) % 3 == 1 ? 2 : 3;
    m64 ma, mb; q_sym(&ma, na, mode, kind == 2 ? 0 : kind, "a"); q_sym(&mb, nb, mode, kind, "b");
    r64 *a = q_build(&ma), *b = q_build(&mb); uint64_t ni = inter(&ma, &mb);
    queries(a, b, q_card(&ma), q_card(&mb), ni); queries(b, a, q_card(&mb), q_card(&ma), ni);
    CHECK(roaring64_bitmap_equals(a, a) & roaring64_bitmap_is_subset(a, a) & !roaring64_bitmap_is_strict_subset(a, a), "a bitmap equals itself");
    if (na == 1 && nb == 1 && kind == 0) { ni = sym_concretize_(ni); CHECK(roaring64_bitmap_jaccard_index(a, b) == (double)ni / (double)(2 - ni), "jaccard_index is intersection over union"); }
    roaring64_bitmap_free(a); roaring64_bitmap_free(b);
}
ENTRY(q_qkernel) {
    int nsh = 9, c = PICKN("case", nsh * nsh), sa = kshape[c % nsh], sb = kshape[c / nsh], win = (sa + 2 * sb) % 3;
    chunk_t *A = ck_shape(sa, 0, win, 0, "a"), *B = ck_shape(sb, 1, win, 0, "b");
    m64 ma = q_one(0x70000, A), mb = q_one(0x70000, B);
    r64 *a = q_build(&ma), *b = q_build(&mb);
    queries(a, b, q_card(&ma), q_card(&mb), winter(A, B));
    roaring64_bitmap_free(a); roaring64_bitmap_free(b);
}
ENTRY(q_self) { /* both operands are the same bitmap */
    int c = PICKN("case", 8 * 3), op = c % 4, inplace = c / 4 % 2; if (inplace) op %= 2; /* the others rule this out */ m64 m; q_sym(&m, c / 8, 1, 1, "a");
    r64 *a = q_build(&m), *r = a; if (inplace) apply_in(op, a, a); else r = apply(op, a, a);
    uint64_t x = SYM64("x", 0, UINT64_MAX);
    CHECK(roaring64_bitmap_contains(r, x) == (op < 2 && q_has(&m, x)), "combining a bitmap with itself");
    CHECK_64(r, "result");
    if (r != a) roaring64_bitmap_free(r);
    roaring64_bitmap_free(a);
}
