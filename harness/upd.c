#include "h.h"
/* C05 point updates, C06 ranges, C07 order statistics, C09 exports, C10 storage, C17 offsets; with valid=1 their C11 part. */
static wset_t w0, w1;
static chunk_t *g_c; static model_t g_m; static int g_s, g_win; static uint32_t g_lo, g_hi;
#define KEY 7u
static int pick_shape(int n) { int c = PICKN("shape", N_SHAPES * n); g_s = c % N_SHAPES; return c / N_SHAPES; } /* a shape and one of n choices */
static roaring_bitmap_t *shape_bm(int salt, int spread) {
    g_win = P("w", 3); if (g_win == 3) g_win = (g_s + salt) % 3;
    g_c = ck_shape(g_s, P("side", 0), g_win, spread, "a");
    g_m = m_one(KEY, g_c);
    win_bounds(g_win, &g_lo, &g_hi);
    ws_of(&g_m, &w0);
    return m_build(&g_m);
}
/* a value in or next to the window */
static uint16_t near_win(const char *nm) { return SYM16(nm, g_lo > 2 ? g_lo - 2 : 0, g_hi < 65533 ? g_hi + 2 : 65535); }
static bool words_has(const uint64_t *w, uint16_t v) { /* v in the window */
    uint32_t lo = (uint32_t)sym_min_(v) >> 6, hi = (uint32_t)sym_max_(v) >> 6; uint64_t h = 0;
    for (uint32_t i = lo; i <= hi; i++) h |= (uint64_t)((uint32_t)(v >> 6) == i) & (w[i] >> (v & 63));
    return h & 1;
}
static bool words_empty(const uint64_t *w) { uint64_t o = 0; for (int i = 0; i < 1024; i++) o |= w[i]; return o == 0; }
static void flip_range_w(uint64_t *w, uint32_t s, uint32_t e) { /* closed */
    static uint64_t m[1024]; memset(m, 0, sizeof m); or_range(m, s, e);
    for (int i = 0; i < 1024; i++) w[i] ^= m[i];
}
static void check_state(const roaring_bitmap_t *r, const wset_t *s, bool cheap) {
    OBS("card", roaring_bitmap_get_cardinality(r));
    if (P("valid", 0)) { CHECK_VALID(r, "updated bitmap"); return; }
    CHECK_OK(r, "updated bitmap");
    CHECK(rd_is(r, s), "bitmap holds exactly the intended elements");
    (void)cheap;
    CHECK(roaring_bitmap_is_empty(r) == words_empty(s->w[0]), "is_empty agrees with the set");
}

/* ---- C05 ---- */
enum { U_ADD, U_ADDC, U_REM, U_REMC, U_ADDM, U_REMM, U_BULK, U_CONT, N_UPD };
static void upd(roaring_bitmap_t *r, wset_t *s, int op) {
    uint16_t v = near_win("v"); uint32_t full = KEY << 16 | v;
    bool was = words_has(s->w[0], v);
    switch (op) {
        case U_ADD: roaring_bitmap_add(r, full); or_bit(s->w[0], v); break;
        case U_ADDC: { bool ch = roaring_bitmap_add_checked(r, full); OBS("ch", ch); CHECK(ch == !was, "add_checked tells whether the set changed"); or_bit(s->w[0], v); break; }
        case U_REM: roaring_bitmap_remove(r, full); clr_bit(s->w[0], v); break;
        case U_REMC: { bool ch = roaring_bitmap_remove_checked(r, full); OBS("ch", ch); CHECK(ch == was, "remove_checked tells whether the set changed"); clr_bit(s->w[0], v); break; }
        case U_ADDM: case U_REMM: {
            uint16_t v2 = near_win("v2"); uint32_t vals[3] = { full, KEY << 16 | v2, full };
            if (op == U_ADDM) { roaring_bitmap_add_many(r, 3, vals); or_bit(s->w[0], v); or_bit(s->w[0], v2); }
            else { roaring_bitmap_remove_many(r, 3, vals); clr_bit(s->w[0], v); clr_bit(s->w[0], v2); }
            break; }
        case U_BULK: {
            uint16_t v2 = near_win("v2"); roaring_bulk_context_t c; memset(&c, 0, sizeof c);
            roaring_bitmap_add_bulk(r, &c, full); or_bit(s->w[0], v);
            bool h = roaring_bitmap_contains_bulk(r, &c, KEY << 16 | v2);
            CHECK(h == words_has(s->w[0], v2), "contains_bulk answers for the current set");
            roaring_bitmap_add_bulk(r, &c, KEY << 16 | v2); or_bit(s->w[0], v2);
            break; }
        case U_CONT: {
            roaring_bulk_context_t c; memset(&c, 0, sizeof c);
            CHECK(roaring_bitmap_contains(r, full) == was, "contains answers for the current set");
            CHECK(roaring_bitmap_contains_bulk(r, &c, full) == was, "contains_bulk answers for the current set");
            CHECK(!roaring_bitmap_contains(r, full ^ 0x10000), "contains is false in an absent chunk");
            break; }
    }
}
ENTRY(upd_kernel) { /* two updates on every shape */
    int c = pick_shape(P("op2all", 0) ? N_UPD * N_UPD : N_UPD), op1 = DIG(c, N_UPD);
    int op2 = P("op2all", 0) ? c : (op1 * 3 + g_s) % 2 ? U_REM : U_ADD;
    roaring_bitmap_t *r = shape_bm(op1, 0);
    w1 = w0;
    upd(r, &w1, op1);
    if (!P("valid", 0) || 1) upd(r, &w1, op2);
    check_state(r, &w1, true);
    roaring_bitmap_free(r);
}
/* sequences of k updates with arbitrary 32-bit values on small bitmaps with arbitrary keys */
static bool in_list(const uint32_t *v, const bool *add, int n, uint32_t x, bool init) { bool h = init; for (int i = 0; i < n; i++) h = v[i] == x ? add[i] : h; return h; }
ENTRY(upd_seq) {
    int k = P("k", 2), c = 2 * P("maxn", 2) * (N_UPD - 1);
    for (int i = 1; i < k; i++) c *= 4;
    c = PICKN("case", c);
    int n0 = DIG(c, P("maxn", 2)), cow = DIG(c, 2), op[4]; uint32_t v[8]; bool add[8]; int nv = 0;
    for (int i = 0; i < k; i++) op[i] = i == k - 1 ? c : DIG(c, 4);
    m_sym(&g_m, n0, 3, "a");
    roaring_bitmap_t *r = m_build(&g_m), *copy = 0;
    if (cow) { roaring_bitmap_set_copy_on_write(r, true); copy = roaring_bitmap_copy(r); }
    uint32_t x = SYM32("x", 0, UINT32_MAX);
    for (int i = 0; i < k; i++) {
        uint32_t y = SYM32("y", 0, UINT32_MAX);
        bool was = in_list(v, add, nv, y, m_has(&g_m, y));
        switch (op[i]) {
            case U_ADD: roaring_bitmap_add(r, y); v[nv] = y; add[nv++] = true; break;
            case U_ADDC: { bool c = roaring_bitmap_add_checked(r, y); CHECK(c == !was, "add_checked tells whether the set changed"); v[nv] = y; add[nv++] = true; break; }
            case U_REM: roaring_bitmap_remove(r, y); v[nv] = y; add[nv++] = false; break;
            case U_REMC: { bool c = roaring_bitmap_remove_checked(r, y); CHECK(c == was, "remove_checked tells whether the set changed"); v[nv] = y; add[nv++] = false; break; }
            case U_ADDM: case U_REMM: {
                uint32_t z = SYM32("z", 0, UINT32_MAX), vals[2] = { y, z };
                if (op[i] == U_ADDM) roaring_bitmap_add_many(r, 2, vals); else roaring_bitmap_remove_many(r, 2, vals);
                v[nv] = y; add[nv++] = op[i] == U_ADDM; v[nv] = z; add[nv++] = op[i] == U_ADDM;
                break; }
            case U_BULK: {
                uint32_t z = SYM32("z", 0, UINT32_MAX); roaring_bulk_context_t c; memset(&c, 0, sizeof c);
                CHECK(roaring_bitmap_contains_bulk(r, &c, z) == in_list(v, add, nv, z, m_has(&g_m, z)), "contains_bulk answers for the current set");
                roaring_bitmap_add_bulk(r, &c, y); v[nv] = y; add[nv++] = true;
                roaring_bitmap_add_bulk(r, &c, z); v[nv] = z; add[nv++] = true;
                break; }
        }
    }
    OBS("card", roaring_bitmap_get_cardinality(r));
    if (P("valid", 0)) { CHECK_VALID(r, "bitmap after updates"); }
    else {
        CHECK_OK(r, "bitmap after updates");
        CHECK(rd_has(r, x) == in_list(v, add, nv, x, m_has(&g_m, x)), "bitmap holds exactly the values last added");
        CHECK(roaring_bitmap_contains(r, x) == in_list(v, add, nv, x, m_has(&g_m, x)), "contains answers for the values last added");
        CHECK(roaring_bitmap_is_empty(r) == (rd_card(r) == 0), "is_empty agrees with the set");
        if (copy) CHECK(rd_has(copy, x) == m_has(&g_m, x), "updates do not reach the copy-on-write copy");
    }
    if (op[0] == U_REM) { roaring_bitmap_clear(r); CHECK(roaring_bitmap_is_empty(r) & (roaring_bitmap_get_cardinality(r) == 0), "clear empties the bitmap"); roaring_bitmap_add(r, x); CHECK(roaring_bitmap_contains(r, x), "a cleared bitmap can be used"); }
    roaring_bitmap_free(r);
    if (copy) { CHECK(rd_has(copy, x) == m_has(&g_m, x), "freeing the original does not reach the copy"); roaring_bitmap_free(copy); }
}

/* ---- C06 ---- */
enum { R_ADD, R_REM, R_FLIP, R_FLIPI, R_QUERY, N_RNG };
ENTRY(rng_kernel) { /* a range inside one chunk, on every shape: ends in the window, or one end at the border of the chunk */
    int c = pick_shape(N_RNG * 3), op = DIG(c, N_RNG), ends = c;
    roaring_bitmap_t *r = shape_bm(op + ends, 0), *q = r;
    uint32_t s = ends == 1 ? 0 : near_win("s"), e = ends == 2 ? 65535 : near_win("e");
    ASSUME(s <= e);
    uint64_t S = (uint64_t)KEY << 16 | s, E = ((uint64_t)KEY << 16 | e) + 1;
    w1 = w0;
    if (op == R_QUERY) {
        static uint64_t m[1024]; uint64_t n = 0; memset(m, 0, sizeof m); or_range(m, s, e);
        for (int i = 0; i < 1024; i++) n += popc(m[i] & w0.w[0][i]);
        uint64_t got = roaring_bitmap_range_cardinality(r, S, E);
        OBS("rc", got);
        CHECK(got == n, "range_cardinality counts the elements of the range");
        CHECK(roaring_bitmap_range_cardinality_closed(r, (uint32_t)S, (uint32_t)(E - 1)) == n, "range_cardinality_closed counts the elements of the range");
        CHECK(roaring_bitmap_contains_range(r, S, E) == (n == E - S), "contains_range is true exactly when all values are present");
        CHECK(roaring_bitmap_contains_range_closed(r, (uint32_t)S, (uint32_t)(E - 1)) == (n == E - S), "contains_range_closed is true exactly when all values are present");
        CHECK(roaring_bitmap_intersect_with_range(r, S, E) == (n != 0), "intersect_with_range is true exactly when some value is present");
        CHECK(rd_is(r, &w0), "range queries leave the bitmap unchanged");
    } else {
        if (op == R_ADD) { roaring_bitmap_add_range(r, S, E); or_range(w1.w[0], s, e); }
        if (op == R_REM) { roaring_bitmap_remove_range(r, S, E); static uint64_t m[1024]; memset(m, 0, sizeof m); or_range(m, s, e); for (int i = 0; i < 1024; i++) w1.w[0][i] &= ~m[i]; }
        if (op == R_FLIP) { q = roaring_bitmap_flip(r, S, E); flip_range_w(w1.w[0], s, e); }
        if (op == R_FLIPI) { roaring_bitmap_flip_inplace(r, S, E); flip_range_w(w1.w[0], s, e); }
        check_state(q, &w1, false);
        if (q != r) { CHECK(rd_is(r, &w0), "flip leaves its input unchanged"); roaring_bitmap_free(q); }
    }
    roaring_bitmap_free(r);
}
static bool in_rng(uint64_t x, uint64_t s, uint64_t e) { return (x >= s) & (x < e); }
/* ranges with arbitrary 64-bit bounds over small bitmaps with arbitrary keys; updates span at most `span` chunks */
ENTRY(rng_bounds) {
    int op = PICK("op", 4), n = PICK("n", 2), where = PICK("where", 3);
    sym_shard_((uint64_t)(op * 3 + n) * 3 + where);
    m_sym(&g_m, n, 3, "a");
    roaring_bitmap_t *r = m_build(&g_m), *q = r;
    const uint64_t top = (uint64_t)1 << 32;
    static const uint32_t below[3] = {0x10003, 0x10000, 4};
    uint64_t s = where == 2 ? top - below[PICK("base", 3)] + SYM64("s", 0, 3) : SYM64("s", 0, UINT64_MAX), e = SYM64("e", 0, UINT64_MAX);
    if (where == 0) ASSUME((s >= top) | (e <= s));                    /* nothing to do */
    else if (where == 1) ASSUME((s < top) & (e > s) & (e - s <= 8));     /* a few values anywhere, also across a chunk border */
    else ASSUME((s < top) & (e > s) & (e + 4 > top)); /* up to or beyond the end of the universe */
    uint32_t x = SYM32("x", 0, UINT32_MAX);
    bool was = m_has(&g_m, x), in = in_rng(x, s, e);
    if (op == 0) roaring_bitmap_add_range(r, s, e);
    if (op == 1) roaring_bitmap_remove_range(r, s, e);
    if (op == 2) q = roaring_bitmap_flip(r, s, e);
    if (op == 3) roaring_bitmap_flip_inplace(r, s, e);
    OBS("card", roaring_bitmap_get_cardinality(q));
    if (P("valid", 0)) CHECK_VALID(q, "bitmap after a range update");
    else {
        CHECK_OK(q, "bitmap after a range update");
        CHECK(rd_has(q, x) == (op == 0 ? was | in : op == 1 ? was & !in : was ^ in), "range update changes exactly the values in the range");
    }
    if (q != r) { CHECK(rd_has(r, x) == was, "flip leaves its input unchanged"); roaring_bitmap_free(q); }
    roaring_bitmap_free(r);
}
/* updates across several chunks, some present */
ENTRY(rng_multi) {
    int c = PICKN("case", 128), op = DIG(c, 4), lay = DIG(c, 4), es = DIG(c, 2), ee = DIG(c, 2), cow = c;
    /* chunks at keys 4,5,6 as the layout has it: single value, full run, bitset */
    static const uint16_t keys[4][3] = {{0, 5, 9}, {4, 6, 7}, {5, 6, 0}, {4, 5, 6}};
    static const int cnt[4] = {3, 3, 2, 3};
    g_m.n = 0;
    for (int i = 0; i < cnt[lay]; i++) {
        int sh = (i + lay + op) % 4;
        chunk_t *c = ck_shape(sh == 0 ? S_A2 : sh == 1 ? S_RFULL : sh == 2 ? S_B4097 : S_RHOLE, 0, (i + lay) % 3, 0, "a");
        g_m.key[g_m.n] = keys[lay][i]; g_m.c[g_m.n++] = c;
    }
    roaring_bitmap_t *r = m_build(&g_m), *q = r, *copy = 0;
    if (cow) { roaring_bitmap_set_copy_on_write(r, true); copy = roaring_bitmap_copy(r); }
    uint32_t s = 4u << 16 | (es ? SYM16("s", 0x123e, 0x1242) : SYM16("s", 0, 2)), e = 6u << 16 | (ee ? SYM16("e", 0x123e, 0x1242) : SYM16("e", 0xfffd, 0xffff));
    ws_of(&g_m, &w0);
    w1.n = 5; static const uint16_t all[5] = {0, 4, 5, 6, 7}; bool nine = ws_at(&w0, 9) != 0;
    for (int i = 0; i < 5; i++) { w1.key[i] = all[i]; const uint64_t *p = ws_at(&w0, all[i]); for (int j = 0; j < 1024; j++) w1.w[i][j] = p ? p[j] : 0; }
    if (nine) { w1.key[5] = 9; w1.n = 6; const uint64_t *p = ws_at(&w0, 9); for (int j = 0; j < 1024; j++) w1.w[5][j] = p[j]; }
    if (op == 0) roaring_bitmap_add_range_closed(r, s, e);
    if (op == 1) roaring_bitmap_remove_range_closed(r, s, e);
    if (op == 2) q = roaring_bitmap_flip_closed(r, s, e);
    if (op == 3) roaring_bitmap_flip_inplace_closed(r, s, e);
    static uint64_t m[1024];
    for (int i = 1; i <= 3; i++) {
        memset(m, 0, sizeof m);
        or_range(m, i == 1 ? s & 0xffff : 0, i == 3 ? e & 0xffff : 65535);
        for (int j = 0; j < 1024; j++) w1.w[i][j] = op == 0 ? w1.w[i][j] | m[j] : op == 1 ? w1.w[i][j] & ~m[j] : w1.w[i][j] ^ m[j];
    }
    OBS("card", roaring_bitmap_get_cardinality(q));
    if (P("valid", 0)) CHECK_VALID(q, "bitmap after a range update");
    else {
        CHECK_OK(q, "bitmap after a range update");
        CHECK(rd_is(q, &w1), "range update across chunks changes exactly the values in the range");
        if (q != r) CHECK(rd_is(r, &w0), "flip leaves its input unchanged");
        if (copy) CHECK(rd_is(copy, &w0), "range update does not reach the copy-on-write copy");
        /* queries over the same range on the original set */
        const roaring_bitmap_t *o = copy ? copy : q != r ? r : 0;
        if (o) {
            uint64_t n = 0;
            for (int i = 1; i <= 3; i++) { const uint64_t *p = ws_at(&w0, all[i]); if (!p) continue; memset(m, 0, sizeof m); or_range(m, i == 1 ? s & 0xffff : 0, i == 3 ? e & 0xffff : 65535); for (int j = 0; j < 1024; j++) n += popc(p[j] & m[j]); }
            CHECK(roaring_bitmap_range_cardinality_closed(o, s, e) == n, "range_cardinality_closed across chunks");
            CHECK(roaring_bitmap_contains_range_closed(o, s, e) == (n == (uint64_t)e - s + 1), "contains_range_closed across chunks");
            CHECK(roaring_bitmap_intersect_with_range(o, s, (uint64_t)e + 1) == (n != 0), "intersect_with_range across chunks");
        }
    }
    if (q != r) roaring_bitmap_free(q);
    roaring_bitmap_free(r);
    if (copy) roaring_bitmap_free(copy);
}
/* range queries with any 64-bit bounds */
ENTRY(rng_query_bounds) {
    int n = PICK("n", 3), kind = PICK("kind", 3);
    sym_shard_((uint64_t)(n * 3 + kind));
    m_sym(&g_m, n, kind == 2 ? 2 : kind, "a");
    roaring_bitmap_t *r = m_build(&g_m);
    uint64_t s = SYM64("s", 0, UINT64_MAX), e = SYM64("e", 0, UINT64_MAX);
    const uint64_t top = (uint64_t)1 << 32;
    uint64_t cs = s > top ? top : s, ce = e > top ? top : e;
    uint64_t want = 0; /* elements of [cs,ce) */
    for (int i = 0; i < n; i++) {
        chunk_t *c = g_m.c[i]; uint64_t b = (uint64_t)g_m.key[i] << 16;
        uint64_t f = b + (c->nr ? c->rs[0] : c->plus[0]), l = b + (c->nr ? c->re[0] : c->plus[0]) + 1;
        uint64_t a = f > cs ? f : cs, z = l < ce ? l : ce;
        want += a < z ? z - a : 0;
    }
    uint64_t got = roaring_bitmap_range_cardinality(r, s, e);
    OBS("rc", got);
    CHECK(got == want, "range_cardinality counts the elements of any range");
    CHECK(roaring_bitmap_contains_range(r, s, e) == ((ce <= cs) | (want == ce - cs)), "contains_range for any bounds");
    CHECK(roaring_bitmap_intersect_with_range(r, s, e) == (want != 0), "intersect_with_range for any bounds");
    roaring_bitmap_free(r);
}
ENTRY(rng_from) { /* from_range with any step; few values */
    static const uint32_t steps[4] = {20000, 32767, 43690, 65533}, from[3] = {0x1fffe, 0xfffe, 0xfffee000};
    int where = PICK("where", 4), b = where == 3 ? PICK("from", 3) : 0, t = where == 3 ? PICK("step", 4) : 0;
    sym_shard_((uint64_t)(where == 3 ? 3 + b * 4 + t : where));
    uint64_t lo = where == 3 ? from[b] + SYM64("min", 0, 3) : SYM64("min", 0, UINT64_MAX), hi = SYM64("max", 0, UINT64_MAX);
    uint32_t st = where == 3 ? steps[t] + SYM32("step", 0, 2) : SYM32("step", 0, UINT32_MAX);
    const uint64_t top = (uint64_t)1 << 32;
    uint64_t ce = hi > top ? top : hi;
    if (where == 0) ASSUME((st == 0) | (ce <= lo));
    else if (where == 1) ASSUME((st >= 0x10000) & (ce > lo) & (ce - lo <= 3 * (uint64_t)st));
    else if (where == 2) ASSUME((st >= 1) & (st < 4) & (ce > lo) & (ce - lo <= 6));
    else ASSUME((ce > lo) & (ce - lo <= 70000));
    if (where == 1) ASSUME(lo >= top - 0x50000 || hi <= 0x200000);
    roaring_bitmap_t *r = roaring_bitmap_from_range(lo, hi, st);
    CHECK((r == 0) == ((st == 0) | (ce <= lo)), "from_range gives NULL exactly for a zero step or an empty range");
    if (!r) return;
    uint32_t x = SYM32("x", 0, UINT32_MAX);
    OBS("card", roaring_bitmap_get_cardinality(r));
    if (P("valid", 0)) CHECK_VALID(r, "from_range");
    else {
        CHECK_OK(r, "from_range");
        bool want = false; uint64_t v = lo;
        for (int i = 0; i < 7; i++, v += st) want |= (v < ce) & (v == x); /* at most 6 values by the assumptions */
        CHECK(rd_has(r, x) == want, "from_range holds exactly min, min+step, ... below max");
    }
    roaring_bitmap_free(r);
}

/* ---- C07 ---- */
ENTRY(ord_kernel) {
    int part = pick_shape(4);
    roaring_bitmap_t *r = shape_bm(part, P("spread", 1) && part != 1 && part != 2);
    uint32_t card = ck_card(g_c);
    if (part == 0) {
        uint32_t x = KEY << 16 | near_win("x");
        uint64_t want = ck_rank(g_c, (uint16_t)x), got = roaring_bitmap_rank(r, x);
        OBS("rank", got);
        CHECK(got == want, "rank counts the elements not above x");
        CHECK(roaring_bitmap_get_index(r, x) == (ck_has(g_c, (uint16_t)x) ? (int64_t)want - 1 : -1), "get_index is the position of an element and -1 otherwise");
        CHECK(roaring_bitmap_rank(r, 0x5ffff) == 0 && roaring_bitmap_rank(r, 0x80000) == card, "rank outside the chunk");
        CHECK(roaring_bitmap_get_cardinality(r) == card, "get_cardinality is the number of elements");
    } else if (part == 1) {
        uint32_t k = SYM32("k", 0, card + 4), e = 0;
        uint32_t base = ck_rank(g_c, (uint16_t)(g_lo ? g_lo - 1 : 0)); /* positions around the window, the first and the last */
        ASSUME((k < 2) | (k + 3 >= card) | ((k + 2 >= base) & (k <= base + 4)));
        bool ok = roaring_bitmap_select(r, k, &e);
        OBS("sel", ok ? e : 0);
        CHECK(ok == (k < card), "select fails exactly when the position is out of range");
        if (ok) { CHECK((e >> 16 == KEY) & ck_has(g_c, (uint16_t)e) & (ck_rank(g_c, (uint16_t)e) == k + 1), "select gives the element at the position"); }
    } else if (part == 2) {
        uint32_t q[4]; uint64_t a[5];
        q[0] = PICK("first", 2) ? 0x60005 : KEY << 16 | 0; q[1] = KEY << 16 | near_win("q1"); q[2] = KEY << 16 | near_win("q2"); q[3] = PICK("last", 2) ? 0x80000 : KEY << 16 | 0xffff;
        ASSUME(q[1] <= q[2]);
        a[4] = 0x55; for (int i = 0; i < 4; i++) a[i] = 0x7777777777ull;
        roaring_bitmap_rank_many(r, q, q + 4, a);
        for (int i = 0; i < 4; i++) { uint64_t w = q[i] < KEY << 16 ? 0 : q[i] >> 16 == KEY ? ck_rank(g_c, (uint16_t)q[i]) : card; OBS("rm", a[i]); CHECK(a[i] == w, "rank_many agrees with rank for every query"); }
        CHECK(a[4] == 0x55, "rank_many writes one answer per query");
    } else {
        uint32_t mn = roaring_bitmap_minimum(r), mx = roaring_bitmap_maximum(r);
        OBS("min", mn); OBS("max", mx);
        CHECK((mn >> 16 == KEY) & ck_has(g_c, (uint16_t)mn) & (ck_rank(g_c, (uint16_t)mn) == 1), "minimum is the smallest element");
        CHECK((mx >> 16 == KEY) & ck_has(g_c, (uint16_t)mx) & (ck_rank(g_c, (uint16_t)mx) == card), "maximum is the largest element");
    }
    roaring_bitmap_free(r);
}
ENTRY(ord_keys) { /* several small chunks with any keys, any query */
    int n = PICK("n", P("maxn", 3) + 1), kind = PICK("kind", 3);
    sym_shard_((uint64_t)(n * 3 + kind));
    m_sym(&g_m, n, kind == 2 ? 2 : kind, "a");
    roaring_bitmap_t *r = m_build(&g_m);
    uint64_t card = m_card(&g_m);
    uint32_t x = SYM32("x", 0, UINT32_MAX), y = SYM32("y", 0, UINT32_MAX), k = SYM32("k", 0, UINT32_MAX), e = 0;
    ASSUME(x <= y);
    uint64_t rx = m_rank(&g_m, x), ry = m_rank(&g_m, y), a[3] = {99, 99, 77};
    CHECK(roaring_bitmap_rank(r, x) == rx, "rank counts the elements not above x");
    CHECK(roaring_bitmap_get_index(r, x) == (m_has(&g_m, x) ? (int64_t)rx - 1 : -1), "get_index is the position of an element and -1 otherwise");
    uint32_t q[2] = {x, y};
    roaring_bitmap_rank_many(r, q, q + 2, a);
    OBS("r0", a[0]); OBS("r1", a[1]);
    CHECK((a[0] == rx) & (a[1] == ry) & (a[2] == 77), "rank_many agrees with rank for every query");
    bool ok = roaring_bitmap_select(r, k, &e);
    CHECK(ok == (k < card), "select fails exactly when the position is out of range");
    if (ok) CHECK(m_has(&g_m, e) & (m_rank(&g_m, e) == (uint64_t)k + 1), "select gives the element at the position");
    uint32_t mn = roaring_bitmap_minimum(r), mx = roaring_bitmap_maximum(r);
    if (n == 0) CHECK((mn == UINT32_MAX) & (mx == 0), "minimum and maximum of an empty bitmap");
    else CHECK(m_has(&g_m, mn) & (m_rank(&g_m, mn) == 1) & m_has(&g_m, mx) & (m_rank(&g_m, mx) == card), "minimum and maximum are the extreme elements");
    CHECK(roaring_bitmap_get_cardinality(r) == card, "get_cardinality is the number of elements");
    roaring_bitmap_free(r);
}

/* ---- C09 ---- */
static uint32_t cb_n, cb_max, cb_prev; static bool cb_sorted, cb_in; static uint64_t cb_words[1024]; static int cb_key;
static void cb_reset(uint32_t max) { cb_n = 0; cb_max = max; cb_sorted = true; cb_in = true; cb_prev = 0; memset(cb_words, 0, sizeof cb_words); }
static void cb_put(uint32_t v) {
    if (cb_n) cb_sorted &= v > cb_prev;
    cb_in &= (v >> 16) == KEY;
    cb_prev = v; cb_n++;
    if (sym_is_symbolic_(v)) or_bit(cb_words, (uint16_t)v); else w_set(cb_words, v & 0xffff);
}
static bool cb32(uint32_t v, void *p) { (void)p; cb_put(v); return cb_n < cb_max; }
static bool cb64(uint64_t v, void *p) { (void)p; cb_put((uint32_t)v); cb_in &= (v >> 32) == 0xABCD1234; return cb_n < cb_max; }
static bool cb_is(const uint64_t *w) { uint64_t d = 0; for (int i = 0; i < 1024; i++) d |= cb_words[i] ^ w[i]; return d == 0; }
/* the first n elements of w */
static bool cb_prefix(const uint64_t *w, uint32_t n, uint32_t card) { /* what was seen is a subset, n of them, and nothing smaller was left out */
    bool ok = true; (void)card;
    for (int i = 0; i < 1024; i++) ok &= (cb_words[i] & ~w[i]) == 0;
    uint64_t below = 0;
    if (cb_n) for (uint32_t i = 0; i < 1024; i++) { uint64_t m = ~ge_mask(i, (cb_prev & 0xffff) + 1); below += popc(w[i] & m); }
    return ok & (cb_n == n) & (below == n);
}
ENTRY(exp_kernel) {
    int part = pick_shape(5);
    roaring_bitmap_t *r = shape_bm(part, P("spread", 0));
    uint32_t card = (uint32_t)sym_concretize_(ck_card(g_c));
    if (!P("full", 0)) { ASSUME(!(part >= 2 && part <= 3 && (g_s == S_BFULL || g_s == S_BHALF))); }
    if (part == 0) {
        uint32_t *out = (uint32_t *)malloc(sizeof(uint32_t) * card); /* exactly the documented size */
        roaring_bitmap_to_uint32_array(r, out);
        cb_reset(0);
        for (uint32_t i = 0; i < card; i++) cb_put(out[i]);
        OBS("first", out[0]); OBS("last", out[card - 1]);
        CHECK(cb_sorted, "to_uint32_array writes increasing values");
        CHECK(cb_in & cb_is(w0.w[0]), "to_uint32_array writes exactly the elements");
        free(out);
    } else if (part == 1) {
        uint32_t base = ck_rank(g_c, (uint16_t)(g_lo ? g_lo - 1 : 0));
        static const uint32_t offs[6] = {0, 1, 2, 3, 4, 5};
        int oi = PICK("off", 6); uint32_t off = oi == 0 ? 0 : oi == 1 ? card - 1 : oi == 2 ? card : oi == 3 ? card + 1 : (uint32_t)sym_concretize_(base) + offs[oi] - 4, lim = (uint32_t)PICK("lim", 4);
        uint32_t n = off >= card ? 0 : card - off < lim ? card - off : lim;
        uint32_t *out = (uint32_t *)malloc(sizeof(uint32_t) * (lim ? lim : 1)); out[0] = 0x5555;
        CHECK(roaring_bitmap_range_uint32_array(r, off, lim, out), "range_uint32_array succeeds");
        for (uint32_t i = 0; i < n; i++) {
            OBS("v", out[i]);
            CHECK((out[i] >> 16 == KEY) & ck_has(g_c, (uint16_t)out[i]) & (ck_rank(g_c, (uint16_t)out[i]) == off + i + 1), "range_uint32_array writes the elements from the given position");
        }
        free(out);
    } else if (part == 2 || part == 3) {
        int stop = PICK("stop", 3); uint32_t lim = stop == 0 ? card + 1 : stop == 1 ? 1 : card < 3 ? card : 3;
        cb_reset(lim);
        bool done = part == 2 ? roaring_iterate(r, cb32, 0) : roaring_iterate64(r, cb64, 0xABCD123400000000ull, 0);
        OBS("n", cb_n);
        uint32_t n = lim < card ? lim : card;
        CHECK(done == (lim > card), "iterate reports whether it was stopped");
        CHECK(cb_sorted & cb_in, "iterate calls back in increasing order");
        CHECK(stop == 0 ? cb_is(w0.w[0]) & (cb_n == card) : cb_prefix(w0.w[0], n, card), "iterate calls back once per element until told to stop");
    } else {
        bitset_t *b = bitset_create();
        CHECK(roaring_bitmap_to_bitset(r, b), "to_bitset succeeds");
        uint64_t d = 0;
        CHECK(b->arraysize <= 8 * 1024 && b->arraysize > 7 * 1024 - 1, "to_bitset covers the elements");
        for (size_t i = 0; i < b->arraysize; i++) d |= b->array[i] ^ (i >= 7 * 1024 ? w0.w[0][i - 7 * 1024] : 0);
        for (size_t i = b->arraysize < 7 * 1024 ? 0 : b->arraysize - 7 * 1024; i < 1024; i++) d |= w0.w[0][i];
        CHECK(d == 0, "to_bitset sets exactly the bits of the elements");
        bitset_free(b);
    }
    CHECK(rd_is(r, &w0), "exports leave the bitmap unchanged");
    roaring_bitmap_free(r);
}
ENTRY(exp_keys) { /* several chunks with any keys */
    int n = PICK("n", 3), part = PICK("part", 3), kind = PICK("kind", 3), share = PICK("share", 2);
    sym_shard_((uint64_t)((n * 3 + part) * 3 + kind) * 2 + share);
    if (kind == 2) kind = 3;
    m_sym(&g_m, n, kind, "a");
    roaring_bitmap_t *r = m_build(&g_m), *copy = 0;
    if (share) { roaring_bitmap_set_copy_on_write(r, true); copy = roaring_bitmap_copy(r); }
    uint32_t card = (uint32_t)sym_concretize_(m_card(&g_m));
    uint32_t off = 0, cnt = card;
    uint32_t *out;
    if (part == 0) { out = (uint32_t *)malloc(4 * (size_t)(card + !card)); roaring_bitmap_to_uint32_array(r, out); }
    else if (part == 1) {
        off = (uint32_t)PICK("off", 5); uint32_t lim = (uint32_t)PICK("lim", 5);
        out = (uint32_t *)malloc(4 * (size_t)(lim + !lim));
        CHECK(roaring_bitmap_range_uint32_array(r, off, lim, out), "range_uint32_array succeeds");
        cnt = off >= card ? 0 : card - off < lim ? card - off : lim;
    } else {
        roaring_uint32_iterator_t it; roaring_iterator_init(r, &it);
        uint32_t lim = (uint32_t)PICK("lim", 5); out = (uint32_t *)malloc(4 * (size_t)(lim + !lim));
        cnt = roaring_uint32_iterator_read(&it, out, lim);
        CHECK(cnt == (lim < card ? lim : card), "read returns as many elements as there are, at most count");
    }
    for (uint32_t i = 0; i < cnt; i++) { OBS("v", out[i]); CHECK(m_has(&g_m, out[i]) & (m_rank(&g_m, out[i]) == off + i + 1), "exports list the elements in order"); }
    uint32_t x = SYM32("x", 0, UINT32_MAX);
    CHECK(rd_has(r, x) == m_has(&g_m, x), "exports leave the bitmap unchanged");
    free(out);
    roaring_bitmap_free(r);
    if (copy) { CHECK(rd_has(copy, x) == m_has(&g_m, x), "exports leave copies unchanged"); roaring_bitmap_free(copy); }
}

/* ---- C10 ---- */
ENTRY(opt_kernel) {
    int part = pick_shape(4);
    roaring_bitmap_t *r = shape_bm(part, P("spread", 1));
    if (part == 0 || part == 3) {
        bool run = roaring_bitmap_run_optimize(r);
        uint8_t t = r->high_low_container.typecodes[0];
        CHECK(run == (t == RN), "run_optimize tells whether runs are used");
        if (part == 3) roaring_bitmap_shrink_to_fit(r);
    } else if (part == 1) {
        bool had = r->high_low_container.typecodes[0] == RN;
        bool got = roaring_bitmap_remove_run_compression(r);
        CHECK(got == had, "remove_run_compression tells whether something changed");
        CHECK(r->high_low_container.typecodes[0] != RN, "remove_run_compression leaves no runs");
    } else { roaring_bitmap_shrink_to_fit(r); }
    OBS("card", roaring_bitmap_get_cardinality(r));
    if (P("valid", 0)) CHECK_VALID(r, "optimised bitmap");
    else { CHECK_OK(r, "optimised bitmap"); CHECK(rd_is(r, &w0), "optimising leaves the set unchanged"); }
    /* a later update */
    uint16_t v = near_win("v"); w1 = w0;
    if ((g_s + part) & 1) { roaring_bitmap_add(r, KEY << 16 | v); or_bit(w1.w[0], v); } else { roaring_bitmap_remove(r, KEY << 16 | v); clr_bit(w1.w[0], v); }
    if (P("valid", 0)) CHECK_VALID(r, "updated optimised bitmap");
    else { CHECK_OK(r, "updated optimised bitmap"); CHECK(rd_is(r, &w1), "an optimised bitmap is updated as the original"); }
    roaring_bitmap_free(r);
}
ENTRY(opt_stats) {
    int n = pick_shape(3), a = g_s;
    int sh[2] = {a, (a * 7 + 3) % N_SHAPES}; roaring_statistics_t st; memset(&st, 0x5a, sizeof st);
    g_m.n = n;
    for (int i = 0; i < n; i++) { g_m.key[i] = (uint16_t)(3 + 5 * i); g_m.c[i] = ck_shape(sh[i], i, (a + i) % 3, 1, "a"); }
    roaring_bitmap_t *r = m_build(&g_m);
    if (PICK("opt", 2)) roaring_bitmap_run_optimize(r);
    roaring_bitmap_statistics(r, &st);
    uint32_t nc[4] = {0}, nv[4] = {0}, nb[4] = {0}; uint64_t sum = 0;
    for (int i = 0; i < n; i++) {
        uint8_t t = r->high_low_container.typecodes[i]; const void *c = r->high_low_container.containers[i];
        uint32_t k = ck_card(g_m.c[i]);
        nc[t]++; nv[t] += k;
        nb[t] += t == BS ? 8192 : t == AR ? 2 * k : 4 * (uint32_t)((const run_container_t *)c)->n_runs + (P("runhdr", 2));
        wset_t *W = &w0; (void)W;
        sum += 0;
    }
    (void)sum;
    CHECK((st.n_containers == (uint32_t)n) & (st.n_array_containers == nc[AR]) & (st.n_run_containers == nc[RN]) & (st.n_bitset_containers == nc[BS]), "statistics count the containers of each kind");
    CHECK((st.n_values_array_containers == nv[AR]) & (st.n_values_run_containers == nv[RN]) & (st.n_values_bitset_containers == nv[BS]), "statistics count the values per kind");
    CHECK((st.n_bytes_array_containers == nb[AR]) & (st.n_bytes_run_containers == nb[RN]) & (st.n_bytes_bitset_containers == nb[BS]), "statistics count the bytes per kind");
    CHECK(st.cardinality == m_card(&g_m), "statistics report the cardinality");
    OBS("smin", st.min_value); OBS("smax", st.max_value);
    if (n) CHECK((st.min_value == roaring_bitmap_minimum(r)) & (st.max_value == roaring_bitmap_maximum(r)), "statistics report minimum and maximum");
    else CHECK(st.n_containers == 0 && st.cardinality == 0, "statistics of an empty bitmap");
    roaring_bitmap_free(r);
}

/* ---- C17 ---- */
ENTRY(off_kernel) { /* every shape, offsets within and across chunks */
    static const int64_t bases[7] = {0, 65536, -65536, 0x1240, -0x1240, 65536 * 3 + 0x8000, -65536 * 2 - 64};
    int lay = pick_shape(7);
    roaring_bitmap_t *r = shape_bm(lay, 0);
    int64_t d = bases[lay] + PICK("d", 3) - 1;
    roaring_bitmap_t *q = roaring_bitmap_add_offset(r, d);
    /* shift the words */
    int64_t bit = ((int64_t)KEY << 16) + d; /* where value 0 of the chunk goes */
    w1.n = 2; uint32_t k0 = (uint32_t)(bit >> 16), sh = (uint32_t)(bit & 0xffff);
    w1.key[0] = (uint16_t)k0; w1.key[1] = (uint16_t)(k0 + 1);
    memset(w1.w[0], 0, 8192); memset(w1.w[1], 0, 8192);
    for (uint32_t i = 0; i < 1024; i++) {
        uint32_t t = i + (sh >> 6), b = sh & 63;
        uint64_t lo = w0.w[0][i] << b, hi = b ? w0.w[0][i] >> (64 - b) : 0;
        w1.w[t >> 10][t & 1023] |= lo; t++;
        if (hi != 0 || t < 2048) w1.w[t >> 10][t & 1023] |= hi;
    }
    OBS("card", roaring_bitmap_get_cardinality(q));
    if (P("valid", 0)) CHECK_VALID(q, "offset bitmap");
    else {
        CHECK_OK(q, "offset bitmap");
        CHECK(rd_is(q, &w1), "add_offset shifts every element");
        CHECK(rd_is(r, &w0), "add_offset leaves its input unchanged");
    }
    roaring_bitmap_free(q); roaring_bitmap_free(r);
}
ENTRY(off_any) { /* any 64-bit offset on small bitmaps with any keys */
    int n = PICK("n", 3), kind = PICK("kind", 3), cow = PICK("cow", 2);
    sym_shard_((uint64_t)(n * 3 + kind) * 2 + cow);
    m_sym(&g_m, n, kind == 2 ? 3 : kind, "a");
    roaring_bitmap_t *r = m_build(&g_m), *copy = 0;
    if (cow) { roaring_bitmap_set_copy_on_write(r, true); copy = roaring_bitmap_copy(r); }
    int64_t d = (int64_t)SYM64("d", 0, UINT64_MAX);
    roaring_bitmap_t *q = roaring_bitmap_add_offset(r, d);
    uint32_t x = SYM32("x", 0, UINT32_MAX);
    uint64_t src = (uint64_t)x - (uint64_t)d;
    bool want = (src <= UINT32_MAX) & m_has(&g_m, (uint32_t)src);
    OBS("card", roaring_bitmap_get_cardinality(q));
    if (P("valid", 0)) CHECK_VALID(q, "offset bitmap");
    else {
        CHECK_OK(q, "offset bitmap");
        CHECK(rd_has(q, x) == want, "add_offset gives exactly the shifted elements in range");
        CHECK(rd_has(r, x) == m_has(&g_m, x), "add_offset leaves its input unchanged");
        if (copy) CHECK(rd_has(copy, x) == m_has(&g_m, x), "add_offset leaves copies unchanged");
    }
    roaring_bitmap_free(q); roaring_bitmap_free(r); if (copy) roaring_bitmap_free(copy);
}
