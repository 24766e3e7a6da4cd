#include "m64.h"
/* D04: iterators, order queries and export of 64-bit bitmaps */
static m64 g; static uint64_t card;
static uint64_t rank_of(uint64_t x) { return q_rank(&g, x); }
static void at(const roaring64_iterator_t *it, uint64_t p, bool ret) {
    bool in = (p >= 1) & (p <= card);
    CHECK(roaring64_iterator_has_value(it) == in, "has_value is true exactly while the iterator is on an element");
    CHECK(ret == in, "the call returns has_value");
    if (in) { uint64_t v = roaring64_iterator_value(it); OBS("cur", v); CHECK(q_has(&g, v) & (rank_of(v) == p), "value is the element at the iterator's position"); }
}
static uint64_t step(roaring64_iterator_t **pit, const r64 *r, int op, uint64_t p, uint64_t x) {
    roaring64_iterator_t *it = *pit;
    if (op == 0) { if (p > card) return p; bool h = roaring64_iterator_advance(it); at(it, p + 1, h); return p + 1; }
    if (op == 1) { if (p == 0) return p; bool h = roaring64_iterator_previous(it); at(it, p - 1, h); return p - 1; }
    if (op == 2) { /* forward only: the target is not before the current element, and the iterator is on an element */
        if (p < 1 || p > card) return p;
        ASSUME(x >= roaring64_iterator_value(it));
        uint64_t q = rank_of(x) + !q_has(&g, x); bool h = roaring64_iterator_move_equalorlarger(it, x); at(it, q, h); return q; }
    if (op == 3 || op == 4) {
        uint64_t n = op == 3 ? 2 : 5, buf[6], left = p >= 1 && p <= card ? card - p + 1 : 0, want = left < n ? left : n; buf[n] = 0x77;
        uint64_t got = roaring64_iterator_read(it, buf, n);
        CHECK(got == want, "read returns as many elements as there are, at most count");
        for (uint64_t i = 0; i < n; i++) if (i < got) { OBS("rd", buf[i]); CHECK(q_has(&g, buf[i]) & (rank_of(buf[i]) == p + i), "read lists the elements from the current one"); }
        CHECK(buf[n] == 0x77, "read does not write past count");
        at(it, p + want, roaring64_iterator_has_value(it)); return p + want;
    }
    if (op == 5) { roaring64_iterator_t *c = roaring64_iterator_copy(it); roaring64_iterator_free(it); *pit = c; at(c, p, roaring64_iterator_has_value(c)); return p; }
    if (op == 6) { roaring64_iterator_reinit(r, it); at(it, 1, roaring64_iterator_has_value(it)); return 1; }
    roaring64_iterator_reinit_last(r, it); at(it, card, roaring64_iterator_has_value(it)); return card;
}
static uint64_t target(int mode) { return mode == 1 ? SYM64("x", 0, UINT64_MAX) : q_key(mode, "xk") << 16 | SYM16("x", 0x1230, 0x124f); }
static chunk_t *ck_small(int kind) { return kind == 0 ? q_chunk(3, "v") : q_chunk(1, "v"); }
ENTRY(q_iter) {
    int maxn = P("maxn", 3), k = P("k", 3), c = PICKN("case", (maxn + 1) * 2 * 2 * 8 * 8), n = c % (maxn + 1), op[4]; c /= maxn + 1;
    int last = c % 2, kind = c / 2 % 2; c /= 4; op[0] = c % 8; op[1] = c / 8; op[2] = k > 2 ? PICK("op3", 6) : 0;
    int mode = n <= 1 ? 1 : (c + n) % 2 ? 2 : 3; if (n == 2 && c % 3 == 0) mode = 0;
    g.n = n; for (int i = 0; i < n; i++) g.key[i] = q_key(mode, "key");
    for (int i = 1; i < n; i++) ASSUME(g.key[i - 1] < g.key[i]);
    for (int i = 0; i < n; i++) { chunk_t *q = ck_new(AR); if ((i + kind) % 3 == 2) { q->kind = RN; q->nr = 1; q->rs[0] = SYM16("v", 0x1238, 0x1247); q->re[0] = q->rs[0] + 2; } else { q->np = 2; q->plus[0] = 0x1230 + (kind ? 0 : SYM8("v", 0, 15)); q->plus[1] = SYM16("v", 0x1240, 0x124f); } ck_done(q); g.c[i] = q; }
    r64 *r = q_build(&g); card = q_card(&g); card = sym_concretize_(card);
    roaring64_iterator_t *it = last ? roaring64_iterator_create_last(r) : roaring64_iterator_create(r);
    uint64_t p = last ? card : 1;
    at(it, p, roaring64_iterator_has_value(it));
    for (int i = 0; i < k; i++) p = step(&it, r, op[i], p, op[i] == 2 ? target(mode) : 0);
    roaring64_iterator_free(it); roaring64_bitmap_free(r);
}
static const int kshape[] = {S_A2, S_R2, S_AMID, S_A4096, S_B4097, S_RMANY, S_BFULL, S_RFULL, S_BMIX};
ENTRY(q_iter_shape) { /* two large chunks: moves into, across and out of them */
    int c = PICKN("case", 9 * 6 * 3), s = c % 9, o = c / 9 % 6, w = c / 54; uint32_t lo, hi; win_bounds(w, &lo, &hi);
    chunk_t *A = ck_shape(kshape[s], 0, w, 0, "a"), *B = ck_shape(kshape[(s + o + 1) % 9], 1, w, 0, "b");
    g.n = 2; g.key[0] = 0x1234; g.key[1] = o % 2 ? 0x1235 : 0x99999999ull; g.c[0] = A; g.c[1] = B;
    r64 *r = q_build(&g); card = sym_concretize_(q_card(&g));
    roaring64_iterator_t *it = roaring64_iterator_create(r); uint64_t p = 1;
    if (o < 3) { uint64_t x = g.key[0] << 16 | SYM16("x", lo, hi); p = step(&it, r, 2, p, x); p = step(&it, r, o == 0 ? 0 : o == 1 ? 1 : 3, p, 0); }
    else if (o == 3) { uint64_t x = g.key[1] << 16 | SYM16("x", lo, hi); p = step(&it, r, 2, p, x); p = step(&it, r, 1, p, 0); p = step(&it, r, 4, p, 0); }
    else if (o == 4) { uint64_t x = g.key[0] << 16 | SYM16("x", lo, hi); p = step(&it, r, 2, p, x); x = g.key[1] << 16 | SYM16("y", lo, hi); p = step(&it, r, 2, p, x); p = step(&it, r, 0, p, 0); }
    else { uint64_t x = (g.key[0] << 16 | 0xFFFF) + SYM8("x", 0, 3); p = step(&it, r, 2, p, x); p = step(&it, r, 1, p, 0); p = step(&it, r, 1, p, 0); }
    roaring64_iterator_free(it); roaring64_bitmap_free(r);
}
static uint64_t cn, clast, cstop; static bool cok;
static bool visit(uint64_t v, void *ptr) { cok &= (ptr == (void *)&cn) & q_has(&g, v) & (cn == 0 || clast < v); clast = v; cn++; return cn != cstop; }
ENTRY(q_order) { /* rank, select, get_index, minimum, maximum, iterate, to_uint64_array */
    int maxn = P("maxn", 3), c = PICKN("case", (maxn + 1) * 4 * 3), n = c % (maxn + 1), kind, mode; c /= maxn + 1; kind = c % 4; mode = n <= 1 ? 1 : c / 4 % 3 == 1 ? 0 : c / 4 % 3 == 0 ? 2 : 3;
    q_sym(&g, n, mode, kind, "v");
    r64 *r = q_build(&g); card = q_card(&g);
    uint64_t x = mode == 1 ? SYM64("x", 0, UINT64_MAX) : q_key(mode, "xk") << 16 | SYM16("x", 0, 65535), i = 99, e = 99; bool h = q_has(&g, x);
    uint64_t rk = rank_of(x);
    OBS("rank", roaring64_bitmap_rank(r, x));
    CHECK(roaring64_bitmap_rank(r, x) == rk, "rank counts the elements up to the value");
    CHECK(roaring64_bitmap_contains(r, x) == h, "contains answers for the set");
    CHECK(roaring64_bitmap_get_index(r, x, &i) == h, "get_index finds exactly the elements");
    CHECK(h ? i + 1 == rk : i == 99, "get_index gives the position of the element");
    uint64_t k = SYM32("k", 0, 70000); bool in = k < card;
    CHECK(roaring64_bitmap_select(r, k, &e) == in, "select succeeds exactly for positions of the set");
    if (in) CHECK(q_has(&g, e) & (rank_of(e) == k + 1), "select returns the element at the position");
    uint64_t mn = roaring64_bitmap_minimum(r), mx = roaring64_bitmap_maximum(r);
    if (n == 0) CHECK((mn == UINT64_MAX) & (mx == 0), "minimum and maximum of the empty bitmap");
    else CHECK(q_has(&g, mn) & (rank_of(mn) == 1) & q_has(&g, mx) & (rank_of(mx) == card), "minimum and maximum are the first and last element");
    if (kind != 2) { /* whole exports of small sets */
        card = sym_concretize_(card);
        uint64_t out[40]; bool ok = true; out[card] = 0x77;
        roaring64_bitmap_to_uint64_array(r, out);
        for (uint64_t j = 0; j < card; j++) ok &= q_has(&g, out[j]) & (j == 0 || out[j - 1] < out[j]);
        CHECK(ok & (out[card] == 0x77), "to_uint64_array writes exactly the elements in order");
        cstop = c % 2 ? 2 : 0; cn = 0; cok = true;
        bool all = roaring64_bitmap_iterate(r, visit, &cn);
        CHECK(cok & (cn == (cstop && card >= cstop ? cstop : card)) & (all == !(cstop && card >= cstop)), "iterate visits the elements in order until it is stopped");
    }
    roaring64_bitmap_free(r);
}
ENTRY(q_order_shape) {
    int c = PICKN("case", 9 * 3), s = kshape[c % 9], w = c / 9; uint32_t lo, hi; win_bounds(w, &lo, &hi);
    g.n = 2; g.key[0] = 0x1234; g.c[0] = ck_shape(s, 0, w, 0, "a"); g.key[1] = 0xFFFFFFFFFFFFull; g.c[1] = ck_shape(kshape[(c + 4) % 9], 1, w, 0, "b");
    r64 *r = q_build(&g); uint64_t k0 = g.key[c / 9 % 2], x = k0 << 16 | SYM16("x", lo, hi), i = 99, e = 0; bool h = q_has(&g, x); uint64_t rk = rank_of(x);
    card = q_card(&g);
    CHECK(roaring64_bitmap_rank(r, x) == rk, "rank counts the elements up to the value");
    CHECK((roaring64_bitmap_get_index(r, x, &i) == h) & (h ? i + 1 == rk : i == 99), "get_index finds exactly the elements");
    uint64_t k = rk + SYM8("dk", 0, 2); 
    bool in = k - 1 < card; CHECK(roaring64_bitmap_select(r, k - 1, &e) == in, "select succeeds exactly for positions of the set");
    if (in) CHECK(q_has(&g, e) & (rank_of(e) == k), "select returns the element at the position");
    roaring64_bitmap_free(r);
}
