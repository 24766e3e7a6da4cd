#include "upd.c"
/* C08: iterators.  The position is tracked as a mathematical rank: 0 before the first element, card+1 after the last. */
static uint64_t it_card;
static uint64_t rank_of(uint32_t x) { return m_rank(&g_m, x); }
static bool has_val(uint32_t x) { return m_has(&g_m, x); }
/* the iterator is at the p-th element (1-based), or has no value */
static void at(const roaring_uint32_iterator_t *it, uint64_t p, bool ret) {
    bool in = (p >= 1) & (p <= it_card);
    CHECK(it->has_value == in, "has_value is true exactly while the iterator is on an element");
    CHECK(ret == in, "the call returns has_value");
    if (in) { OBS("cur", it->current_value); CHECK(has_val(it->current_value) & (rank_of(it->current_value) == p), "current_value is the element at the iterator's position"); }
}
static uint64_t start_it(const roaring_bitmap_t *r, roaring_uint32_iterator_t *it, int how, uint32_t x) {
    memset(it, 0x5a, sizeof *it);
    if (how == 0) { roaring_iterator_init(r, it); at(it, 1, it_card > 0); return 1; }
    if (how == 1) { roaring_iterator_init_last(r, it); at(it, it_card, it_card > 0); return it_card; }
    roaring_iterator_init(r, it);
    uint64_t p = rank_of(x) + !has_val(x);
    bool ret = roaring_uint32_iterator_move_equalorlarger(it, x);
    at(it, p, ret);
    return p;
}
/* one call; the position moves as documented */
static uint64_t step(roaring_uint32_iterator_t *it, int op, uint64_t p, uint32_t x) {
    if (op == 0) { if (p > it_card) return p; bool r = roaring_uint32_iterator_advance(it); at(it, p + 1, r); return p + 1; }
    if (op == 1) { if (p == 0) return p; bool r = roaring_uint32_iterator_previous(it); at(it, p - 1, r); return p - 1; }
    if (op == 2) { uint64_t q = rank_of(x) + !has_val(x); bool r = roaring_uint32_iterator_move_equalorlarger(it, x); at(it, q, r); return q; }
    if (op == 3 || op == 4) {
        uint32_t n = op == 3 ? 2 : 5, buf[6]; buf[n] = 0x77777777u;
        uint64_t left = p >= 1 && p <= it_card ? it_card - p + 1 : 0, want = left < n ? left : n;
        uint32_t got = roaring_uint32_iterator_read(it, buf, n);
        CHECK(got == want, "read returns as many elements as there are, at most count");
        for (uint32_t i = 0; i < n; i++) if (i < got) { OBS("rd", buf[i]); CHECK(has_val(buf[i]) & (rank_of(buf[i]) == p + i), "read lists the elements from the current one"); }
        CHECK(buf[n] == 0x77777777u, "read does not write past count");
        at(it, p + want, it->has_value);
        return p + want;
    }
    roaring_uint32_iterator_t *c = roaring_uint32_iterator_copy(it);
    CHECK(c->has_value == it->has_value && c->current_value == it->current_value, "a copied iterator is at the same position");
    if (p <= it_card) { bool r = roaring_uint32_iterator_advance(c); at(c, p + 1, r); }
    roaring_uint32_iterator_free(c);
    at(it, p, it->has_value);
    return p;
}
ENTRY(iter_kernel) { /* every shape; starts and steps around the window and at the ends */
    int c = pick_shape(18), how = DIG(c, 3), a = c, b = PICK("op2", 4);
    roaring_bitmap_t *r = shape_bm(how + a + b, P("spread", 0));
    it_card = sym_concretize_(ck_card(g_c));
    roaring_uint32_iterator_t it; uint32_t x = 0;
    if (how == 2) x = KEY << 16 | near_win("x");
    uint64_t p = start_it(r, &it, how, x);
    p = step(&it, a, p, a == 2 ? KEY << 16 | near_win("y") : 0);
    p = step(&it, b, p, b == 2 ? KEY << 16 | near_win("z") : 0);
    CHECK(rd_is(r, &w0), "iterating leaves the bitmap unchanged");
    roaring_bitmap_free(r);
}
ENTRY(iter_keys) { /* several chunks with any keys, any 32-bit targets, shared or not */
    int c = PICKN("case", (P("maxn", 2) + 1) * 9 * 36), n = DIG(c, P("maxn", 2) + 1), kind = DIG(c, 3), how = DIG(c, 3), k = P("k", 2), op[5] = {DIG(c, 6), c};
    int cow = kind == 0 ? PICK("cow", 2) : 0;
    for (int i = 2; i < k; i++) op[i] = PICK("op", 6);
    ASSUME(n < 2 || kind != 1 || P("full", 0));
    m_sym(&g_m, n, kind == 2 ? 3 : kind, "a");
    roaring_bitmap_t *r = m_build(&g_m), *copy = 0;
    if (cow) { roaring_bitmap_set_copy_on_write(r, true); copy = roaring_bitmap_copy(r); }
    it_card = sym_concretize_(m_card(&g_m));
    roaring_uint32_iterator_t *it = roaring_iterator_create(r);
    uint64_t p = start_it(r, it, how, how == 2 ? SYM32("x", 0, UINT32_MAX) : 0);
    for (int i = 0; i < k; i++) p = step(it, op[i], p, op[i] == 2 ? SYM32("y", 0, UINT32_MAX) : 0);
    roaring_uint32_iterator_free(it);
    roaring_bitmap_free(r); if (copy) roaring_bitmap_free(copy);
}
ENTRY(iter_walk) { /* whole traversals, forward, backward and by blocks, of every shape */
    int part = pick_shape(3);
    roaring_bitmap_t *r = shape_bm(part, 0);
    if (!P("full", 0)) ASSUME(!(part < 2 && (g_s == S_BFULL || g_s == S_RFULL || g_s == S_BDENSE || g_s == S_BHALF || g_s == S_RHOLE)));
    if (!P("full", 0)) ASSUME(!(part == 2 && g_s == S_RHOLE));
    uint32_t card = (uint32_t)sym_concretize_(ck_card(g_c));
    roaring_uint32_iterator_t it;
    cb_reset(0);
    if (part == 0) { roaring_iterator_init(r, &it); while (it.has_value) { cb_put(it.current_value); if (cb_n > card) break; roaring_uint32_iterator_advance(&it); } CHECK(cb_sorted, "advance visits increasing values"); }
    if (part == 1) {
        bool dec = true; uint32_t last = 0; roaring_iterator_init_last(r, &it);
        while (it.has_value) { if (cb_n) dec &= it.current_value < last; last = it.current_value; cb_put(last); if (cb_n > card) break; roaring_uint32_iterator_previous(&it); }
        CHECK(dec, "previous visits decreasing values");
    }
    if (part == 2) {
        static uint32_t buf[1 << 16]; uint32_t sizes[4] = {1, 63, 4096, 70000}; int i = 0;
        roaring_iterator_init(r, &it);
        while (it.has_value) {
            uint32_t want = sizes[i++ & 3]; if (want > 65536) want = 65536;
            uint32_t got = roaring_uint32_iterator_read(&it, buf, want);
            for (uint32_t j = 0; j < got; j++) cb_put(buf[j]);
            if (!got || cb_n > card) break;
        }
        CHECK(cb_sorted, "read returns increasing values");
    }
    CHECK(cb_in & (cb_n == card) & cb_is(w0.w[0]), "a traversal visits exactly the elements");
    OBS("n", cb_n);
    roaring_bitmap_free(r);
}
