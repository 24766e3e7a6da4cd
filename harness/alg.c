#include "h.h"
/* C01-C04 (and C11 with valid=1): set algebra, pure, in place, lazy, many-way; counts and predicates. */
static bool comb(int op, bool a, bool b) { return op == 0 ? a & b : op == 1 ? a | b : op == 2 ? a ^ b : a & !b; }
static roaring_bitmap_t *apply(int op, const roaring_bitmap_t *a, const roaring_bitmap_t *b) {
    switch (op) { case 0: return roaring_bitmap_and(a, b); case 1: return roaring_bitmap_or(a, b);
        case 2: return roaring_bitmap_xor(a, b); default: return roaring_bitmap_andnot(a, b); }
}
static void apply_in(int op, roaring_bitmap_t *a, const roaring_bitmap_t *b) {
    switch (op) { case 0: roaring_bitmap_and_inplace(a, b); break; case 1: roaring_bitmap_or_inplace(a, b); break;
        case 2: roaring_bitmap_xor_inplace(a, b); break; default: roaring_bitmap_andnot_inplace(a, b); }
}
static wset_t wa, wb, wr, wc;

/* pre: 0 pure, 1 in place.  The result must be the combination, the (other) inputs untouched. */
static void run(int op, int inplace, const model_t *ma, const model_t *mb, bool words, int cow) {
    roaring_bitmap_t *a = m_build(ma), *b = m_build(mb), *r, *keep = 0, *keepb = 0;
    if (cow & 1) { roaring_bitmap_set_copy_on_write(a, true); keep = roaring_bitmap_copy(a); }
    if (cow & 2) { roaring_bitmap_set_copy_on_write(b, true); keepb = roaring_bitmap_copy(b); }
    if (inplace) { apply_in(op, a, b); r = a; } else r = apply(op, a, b);
    OBS("card", roaring_bitmap_get_cardinality(r));
    if (P("valid", 0)) {
        CHECK_VALID(r, "algebra result");
        CHECK_VALID(b, "algebra operand");
        if (!inplace) CHECK_VALID(a, "algebra first operand");
    } else {
        CHECK_OK(r, "result");
        if (words) {
            ws_of(ma, &wa); ws_of(mb, &wb); ws_comb(op, &wa, &wb, &wr);
            CHECK(rd_is(r, &wr), "result contains exactly the combined elements");
            if (!inplace) CHECK(rd_is(a, &wa), "first input unchanged");
            CHECK(rd_is(b, &wb), "second input unchanged");
            if (keep) CHECK(rd_is(keep, &wa), "copy-on-write copy of the first input unchanged");
            if (keepb) CHECK(rd_is(keepb, &wb), "copy-on-write copy of the second input unchanged");
        } else {
            uint32_t x = SYM32("x", 0, UINT32_MAX);
            bool ha = m_has(ma, x), hb = m_has(mb, x);
            CHECK(rd_has(r, x) == comb(op, ha, hb), "result contains exactly the combined elements");
            if (!inplace) CHECK(rd_has(a, x) == ha, "first input unchanged");
            CHECK(rd_has(b, x) == hb, "second input unchanged");
            if (keep) CHECK(rd_has(keep, x) == ha, "copy-on-write copy of the first input unchanged");
            if (keepb) CHECK(rd_has(keepb, x) == hb, "copy-on-write copy of the second input unchanged");
        }
        if (!inplace) CHECK(rd_card(a) == m_card(ma), "first input size unchanged");
        CHECK(rd_card(b) == m_card(mb), "second input size unchanged");
    }
    if (r != a) roaring_bitmap_free(r);
    roaring_bitmap_free(a);
    if (keep) { if (!P("valid", 0) && !words) CHECK_OK(keep, "copy after its original is gone"); roaring_bitmap_free(keep); }
    roaring_bitmap_free(b);
    if (keepb) roaring_bitmap_free(keepb);
}
static void pick_pair(int *sa, int *sb, chunk_t **A, chunk_t **B, int salt, int maxspread, int c) {
    int simd = P("simd", 0), skip[N_SHAPES] = {0}, list[N_SHAPES * N_SHAPES], n = 0; /* simd: every simd-th pair of the shapes that vector code sees */
    for (int i = 0; i < N_SHAPES; i++) skip[i] = simd && ((i < S_AMID && i != S_A3) || i == S_R2047 || i == S_RHOLE);
    for (int i = 0; i < N_SHAPES; i++) for (int j = 0; j < N_SHAPES; j++) if (!skip[i] && !skip[j] && (!simd || (i + j + salt) % simd == 0)) list[n++] = i * N_SHAPES + j;
    if (c < 0) c = list[PICKN("pair", n)];
    *sa = c / N_SHAPES; *sb = c % N_SHAPES;
    int win = P("w", 3);
    if (win == 3) win = (*sa + 2 * *sb + salt) % 3;
    int pa = shape_spread(*sb), pb = shape_spread(*sa);
    *A = ck_shape(*sa, 0, win, pa < maxspread ? pa : maxspread, "a"); *B = ck_shape(*sb, 1, win, pb < maxspread ? pb : maxspread, "b");
}
/* one chunk on each side, same key: every pair of shapes */
ENTRY(alg_kernel) {
    int sa, sb, op = PICK("op", 4), inplace = P("inplace", 0); chunk_t *A, *B;
    pick_pair(&sa, &sb, &A, &B, op, 2, -1);
    model_t ma = m_one(7, A), mb = m_one(7, B);
    run(op, inplace, &ma, &mb, sa > S_A3 || sb > S_A3, P("cow", 0));
}
/* several small chunks with arbitrary keys on both sides */
ENTRY(alg_merge) {
    int mx = P("maxn", 2) + 1, c = PICKN("case", 4 * mx * mx * 4 * 3), inplace = P("inplace", 0);
    int op = DIG(c, 4), na = DIG(c, mx), nb = DIG(c, mx), cow = DIG(c, 4), kind = c;
    model_t ma, mb;
    m_sym(&ma, na, kind, "a"); m_sym(&mb, nb, kind == 2 ? 3 : kind, "b");
    run(op, inplace, &ma, &mb, false, cow);
}

/* ---- C03 ---- */
ENTRY(lazy_kernel) { /* a op b lazily, then op= c, repaired */
    int ca = PICKN("case", N_SHAPES * N_SHAPES * (P("full", 0) ? 4 : 3)), sa, sb, form = ca / (N_SHAPES * N_SHAPES); chunk_t *A, *B;
    ca %= N_SHAPES * N_SHAPES;
    if (form == 2 && !P("full", 0)) form += (ca / N_SHAPES + ca) % 2; /* quick: every pair in one of the two xor forms */
    pick_pair(&sa, &sb, &A, &B, form, P("spread", 0), ca);
    int sc = (sa * 5 + sb * 7 + form * 3) % N_SHAPES;
    if (!P("full", 0) && (sc == S_RMANY || sc == S_RHOLE || sc == S_R2047) && (sa <= S_R2 || sb <= S_R2 || sa == S_RHOLE || sb == S_RHOLE)) sc = S_BMIX;
    if (P("third", 0)) sc = P("third", 0) - 1;
    chunk_t *C = ck_shape(sc, 1, (sa + sb) % 3, 0, "c");
    if (sc <= S_A3 || sc == S_R1 || sc == S_R2) { /* a fixed small third operand keeps the case count down */
        C = ck_new(sc <= S_A3 ? AR : RN); w_range(C->w, 0x1240, 0x1240 + 2 * sc); ck_done(C); }
    model_t ma = m_one(7, A), mb = m_one(7, B), mc = m_one(7, C);
    roaring_bitmap_t *a = m_build(&ma), *b = m_build(&mb), *c = m_build(&mc), *r;
    int op = form < 2 ? 1 : 2;
    bool conv = form == 1;
    ws_of(&ma, &wa); ws_of(&mb, &wb); ws_of(&mc, &wc);
    if (op == 1) { r = roaring_bitmap_lazy_or(a, b, conv); roaring_bitmap_lazy_or_inplace(r, c, conv); }
    else if (form == 2) { r = roaring_bitmap_lazy_xor(a, b); roaring_bitmap_lazy_xor_inplace(r, c); }
    else { r = roaring_bitmap_copy(a); roaring_bitmap_lazy_xor_inplace(r, b); roaring_bitmap_lazy_xor_inplace(r, c); }
    roaring_bitmap_repair_after_lazy(r);
    OBS("card", roaring_bitmap_get_cardinality(r));
    if (P("valid", 0)) CHECK_VALID(r, "repaired lazy result");
    else {
        CHECK_OK(r, "repaired result");
        static wset_t t; ws_comb(op, &wa, &wb, &t); ws_comb(op, &t, &wc, &wr);
        CHECK(rd_is(r, &wr), "repaired lazy result contains exactly the combined elements");
        CHECK(rd_is(a, &wa) & rd_is(b, &wb) & rd_is(c, &wc), "operands of lazy operations unchanged");
    }
    roaring_bitmap_free(r); roaring_bitmap_free(a); roaring_bitmap_free(b); roaring_bitmap_free(c);
}
ENTRY(many_merge) { /* n bitmaps of small chunks with arbitrary keys */
    int form = PICK("form", 3), n = PICK("n", P("maxb", 4)), cow = PICK("cow", 2), sz = PICK("sz", 2);
    sym_shard_((uint64_t)((form * 6 + n) * 2 + cow) * 2 + sz);
    model_t m[5]; roaring_bitmap_t *b[5]; const roaring_bitmap_t *cb[5];
    for (int i = 0; i < n; i++) {
        m_sym(&m[i], sz == 0 ? 1 : i == 1 ? 0 : i == 0 ? 2 : 1, form == 0 && ((i + sz) % 2 == 0 || (n == 3 && !P("full", 0))) ? 3 : (i + sz) % 2, "m");
        b[i] = m_build(&m[i]); cb[i] = b[i];
        if (cow) roaring_bitmap_set_copy_on_write(b[i], i % 2 == 0);
    }
    roaring_bitmap_t *r = form == 0 ? roaring_bitmap_or_many((size_t)n, cb) : form == 1 ? roaring_bitmap_or_many_heap((uint32_t)n, cb) : roaring_bitmap_xor_many((size_t)n, cb);
    OBS("card", roaring_bitmap_get_cardinality(r));
    if (P("valid", 0)) CHECK_VALID(r, "many-way result");
    else {
        CHECK_OK(r, "many-way result");
        uint32_t x = SYM32("x", 0, UINT32_MAX);
        bool want = false, same = true;
        for (int i = 0; i < n; i++) { bool h = m_has(&m[i], x); want = form == 2 ? want ^ h : want | h; same &= rd_has(b[i], x) == h; }
        CHECK(rd_has(r, x) == want, "many-way result contains exactly the combined elements");
        CHECK(same, "inputs of many-way operations unchanged");
    }
    /* changing an input afterwards must not reach the result, nor the other way round */
    roaring_bitmap_free(r);
    for (int i = 0; i < n; i++) { if (!P("valid", 0)) CHECK_OK(b[i], "input of a many-way operation"); roaring_bitmap_free(b[i]); }
}
ENTRY(many_big) { /* three bitmaps whose shared chunk has large storage forms */
    int c = PICKN("case", 3 * N_SHAPES * N_SHAPES), form = DIG(c, 3), sa = DIG(c, N_SHAPES), sb = c;
    int sc = (sa * 3 + sb * 5 + form) % N_SHAPES, win = (sa + sb + form) % 3;
    if (sa <= S_R2) sa = S_AMID; if (sb <= S_R2) sb = S_ARUN; if (sc <= S_R2) sc = S_RMANY;
    model_t m[3] = { m_one(7, ck_shape(sa, 0, win, 0, "a")), m_one(7, ck_shape(sb, 1, win, 0, "b")), m_one(7, ck_shape(sc, 0, (win + 1) % 3, 0, "c")) };
    roaring_bitmap_t *b[3]; const roaring_bitmap_t *cb[3];
    for (int i = 0; i < 3; i++) cb[i] = b[i] = m_build(&m[i]);
    roaring_bitmap_t *r = form == 0 ? roaring_bitmap_or_many(3, cb) : form == 1 ? roaring_bitmap_or_many_heap(3, cb) : roaring_bitmap_xor_many(3, cb);
    OBS("card", roaring_bitmap_get_cardinality(r));
    static wset_t w3[3], t;
    for (int i = 0; i < 3; i++) ws_of(&m[i], &w3[i]);
    int op = form == 2 ? 2 : 1;
    ws_comb(op, &w3[0], &w3[1], &t); ws_comb(op, &t, &w3[2], &wr);
    if (P("valid", 0)) CHECK_VALID(r, "many-way result");
    else {
        CHECK_OK(r, "many-way result");
        CHECK(rd_is(r, &wr), "many-way result contains exactly the combined elements");
        CHECK(rd_is(b[0], &w3[0]) & rd_is(b[1], &w3[1]) & rd_is(b[2], &w3[2]), "inputs of many-way operations unchanged");
    }
    roaring_bitmap_free(r);
    for (int i = 0; i < 3; i++) roaring_bitmap_free(b[i]);
}

/* ---- C04 ---- */
static void queries(const roaring_bitmap_t *a, const roaring_bitmap_t *b, uint64_t na, uint64_t nb, uint64_t ni) {
    uint64_t c = roaring_bitmap_and_cardinality(a, b);
    OBS("and", c);
    CHECK(c == ni, "and_cardinality is the size of the intersection");
    CHECK(roaring_bitmap_or_cardinality(a, b) == na + nb - ni, "or_cardinality is the size of the union");
    CHECK(roaring_bitmap_xor_cardinality(a, b) == na + nb - 2 * ni, "xor_cardinality is the size of the symmetric difference");
    CHECK(roaring_bitmap_andnot_cardinality(a, b) == na - ni, "andnot_cardinality is the size of the difference");
    CHECK(roaring_bitmap_andnot_cardinality(b, a) == nb - ni, "andnot_cardinality is the size of the difference (swapped)");
    CHECK(roaring_bitmap_intersect(a, b) == (ni != 0), "intersect is true exactly when the intersection is not empty");
    CHECK(roaring_bitmap_intersect(b, a) == (ni != 0), "intersect is symmetric");
    CHECK(roaring_bitmap_is_subset(a, b) == (ni == na), "is_subset is inclusion");
    CHECK(roaring_bitmap_is_subset(b, a) == (ni == nb), "is_subset is inclusion (swapped)");
    CHECK(roaring_bitmap_is_strict_subset(a, b) == ((ni == na) & (na < nb)), "is_strict_subset is proper inclusion");
    CHECK(roaring_bitmap_equals(a, b) == ((ni == na) & (ni == nb)), "equals is set equality");
    CHECK(roaring_bitmap_equals(b, a) == ((ni == na) & (ni == nb)), "equals is symmetric");
}
ENTRY(query_kernel) {
    int sa, sb; chunk_t *A, *B;
    pick_pair(&sa, &sb, &A, &B, P("salt", 0), 2, -1);
    model_t ma = m_one(7, A), mb = m_one(7, B);
    roaring_bitmap_t *a = m_build(&ma), *b = m_build(&mb);
    ws_of(&ma, &wa); ws_of(&mb, &wb); ws_comb(0, &wa, &wb, &wr);
    uint64_t ni, na = m_card(&ma), nb = m_card(&mb);
    if (sa <= S_R2 && sb <= S_R2) { /* counted by elements of the small sides instead of words */
        ni = 0;
        if (sa <= S_A3) for (int i = 0; i < A->np; i++) ni += ck_has(B, A->plus[i]);
        else if (sb <= S_A3) for (int i = 0; i < B->np; i++) ni += ck_has(A, B->plus[i]);
        else for (int i = 0; i < A->nr; i++) for (int j = 0; j < B->nr; j++) {
            uint32_t s = A->rs[i] > B->rs[j] ? A->rs[i] : B->rs[j], e = A->re[i] < B->re[j] ? A->re[i] : B->re[j];
            ni += s <= e ? e - s + 1 : 0;
        }
    } else ni = ws_card(&wr);
    queries(a, b, na, nb, ni);
    roaring_bitmap_free(a); roaring_bitmap_free(b);
}
/* the same set in two storage forms must be equal, and stop being equal after one change */
ENTRY(query_equal_forms) {
    int c = PICKN("case", N_SHAPES * 6), sa = DIG(c, N_SHAPES), form = DIG(c, 3), change = c;
    if (!P("full", 0)) ASSUME(!(form == 2 && change && (sa == S_BDENSE || sa == S_BHALF || sa == S_BFULL))); /* a per-bit loop over the whole chunk */
    chunk_t *A = ck_shape(sa, 0, (sa + form) % 3, 0, "a");
    model_t ma = m_one(7, A);
    roaring_bitmap_t *a = m_build(&ma);
    static uint64_t w[1024];
    ck_words(A, w);
    if (change) { uint32_t p = (uint32_t)SYM16("flip", 0x123c, 0x1243); for (int i = 0x123c >> 6; i <= 0x1243 >> 6; i++) w[i] ^= (uint64_t)((p >> 6) == (uint32_t)i) << (p & 63); }
    bool empty = true; uint32_t n = 0;
    for (int i = 0; i < 1024; i++) n += popc(w[i]);
    ASSUME(n > 0); (void)empty;
    n = (uint32_t)sym_concretize_(n);
    if (form == 0) ASSUME(n > DEFAULT_MAX_SIZE); /* what a valid bitmap may store in that form */
    if (form == 1) ASSUME(n <= DEFAULT_MAX_SIZE);
    if (form == 2 && n <= DEFAULT_MAX_SIZE) ASSUME(n <= 64);
    roaring_bitmap_t *b = roaring_bitmap_create();
    if (form == 0) { bitset_container_t *c = bitset_container_create(); for (int i = 0; i < 1024; i++) c->words[i] = w[i]; c->cardinality = (int)n; ra_append(&b->high_low_container, 7, c, BS); }
    else {
        bitset_container_t *c = bitset_container_create(); for (int i = 0; i < 1024; i++) c->words[i] = w[i]; c->cardinality = (int)n;
        if (form == 1) { array_container_t *q = array_container_from_bitset(c); bitset_container_free(c); ra_append(&b->high_low_container, 7, q, AR); }
        else {
            if (n <= DEFAULT_MAX_SIZE) { array_container_t *q = array_container_from_bitset(c); bitset_container_free(c); ra_append(&b->high_low_container, 7, q, AR); }
            else ra_append(&b->high_low_container, 7, c, BS);
            roaring_bitmap_run_optimize(b);
        }
    }
    CHECK(roaring_bitmap_equals(a, b) == !change, "equality does not depend on the storage form");
    CHECK(roaring_bitmap_equals(b, a) == !change, "equality does not depend on the storage form (swapped)");
    bool ab = roaring_bitmap_is_subset(a, b), ba = roaring_bitmap_is_subset(b, a);
    CHECK(change ? ab != ba : ab & ba, "inclusion does not depend on the storage form");
    roaring_bitmap_free(a); roaring_bitmap_free(b);
}
ENTRY(query_merge) {
    int na = PICK("na", P("maxn", 2) + 1), nb = PICK("nb", P("maxn", 2) + 1), kind = PICK("kind", 3);
    sym_shard_((uint64_t)(na * 4 + nb) * 3 + kind);
    model_t ma, mb; m_sym(&ma, na, kind, "a"); m_sym(&mb, nb, kind == 2 ? 3 : kind, "b");
    roaring_bitmap_t *a = m_build(&ma), *b = m_build(&mb);
    uint64_t ni = 0;
    for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) {
        chunk_t *A = ma.c[i], *B = mb.c[j];
        uint32_t k = 0;
        uint32_t as = A->nr ? A->rs[0] : A->plus[0], ae = A->nr ? A->re[0] : A->plus[0], bs = B->nr ? B->rs[0] : B->plus[0], be = B->nr ? B->re[0] : B->plus[0];
        uint32_t s = as > bs ? as : bs, e = ae < be ? ae : be;
        k = s <= e ? e - s + 1 : 0;
        ni += ma.key[i] == mb.key[j] ? k : 0;
    }
    queries(a, b, m_card(&ma), m_card(&mb), ni);
    roaring_bitmap_free(a); roaring_bitmap_free(b);
}
/* the jaccard index is a quotient of two exact counts */
ENTRY(query_jaccard) {
    int kind = PICK("kind", 3);
    chunk_t *A = ck_new(AR), *B = ck_new(AR);
    A->np = 1 + (kind > 0); B->np = 2; sym_sorted(A->plus, A->np, 0, 65535, "a"); sym_sorted(B->plus, B->np, 0, 65535, "b");
    ck_done(A); ck_done(B);
    model_t ma = m_one(3, A), mb = m_one(kind == 2 ? 4 : 3, B);
    roaring_bitmap_t *a = m_build(&ma), *b = m_build(&mb);
    uint64_t ni = 0;
    if (kind != 2) for (int i = 0; i < A->np; i++) ni += ck_has(B, A->plus[i]);
    ni = sym_concretize_(ni);
    double want = (double)ni / (double)(A->np + B->np - ni), got = roaring_bitmap_jaccard_index(a, b);
    CHECK(got == want, "jaccard_index is intersection over union");
    roaring_bitmap_free(a); roaring_bitmap_free(b);
}
