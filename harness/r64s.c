#include "m64.h"
#include "spec.h"
/* D05 serialization of 64-bit bitmaps, D06 untrusted bytes, D07 copies and storage operations */
static m64 g;
static uint64_t g64(const uint8_t *b) { return g32(b) | (uint64_t)g32(b + 4) << 32; }
/* the published 64-bit layout: count of high halves, then each high half with a 32-bit image */
static bool spec64(const uint8_t *b, size_t size, const m64 *m, uint64_t x, bool *has) {
    uint64_t cnt = sym_concretize_(g64(b)); size_t pos = 8; int idx = 0; bool wf = true; uint32_t prev = 0;
    *has = false;
    for (uint64_t i = 0; i < cnt; i++) {
        uint32_t hi = g32(b + pos); pos += 4;
        wf &= i == 0 || hi > prev; prev = hi;
        int n = spec_n(b + pos); size_t got = 0;
        wf &= n > 0;
        for (int j = 0; j < n; j++) {
            uint16_t key = 0; bool h = false;
            got = spec_read(b + pos, j, &key, 0, &wf, (uint16_t)x, &h);
            if (idx >= m->n) return false;
            wf &= m->key[idx] == ((uint64_t)hi << 16 | key);
            *has |= (m->key[idx] == x >> 16) & h; idx++;
        }
        pos += got;
    }
    return wf & (idx == m->n) & (pos == size);
}
static void same64(const r64 *r, r64 *q, const m64 *m, uint64_t x) {
    CHECK(q != 0, "what was written is accepted");
    CHECK_64(q, "the reproduced bitmap");
    CHECK(roaring64_bitmap_contains(q, x) == q_has(m, x), "the reproduced bitmap has exactly the same elements");
    CHECK(roaring64_bitmap_get_cardinality(q) == q_card(m), "the reproduced bitmap has the same cardinality");
    CHECK(roaring64_bitmap_equals(r, q) & roaring64_bitmap_equals(q, r), "the reproduced bitmap equals the original");
}
static void unchanged64(const r64 *r, const m64 *m, uint64_t x) { CHECK((roaring64_bitmap_contains(r, x) == q_has(m, x)) & (roaring64_bitmap_get_cardinality(r) == q_card(m)), "the serialized bitmap is unchanged"); }
static char *exact64(const char *src, size_t n) { char *b = (char *)roaring_aligned_malloc(64, n + !n); memcpy(b, src, n); return b; }
static void port64(r64 *r, const m64 *m, uint64_t x, int part, int cut) {
    size_t size = sym_concretize_(roaring64_bitmap_portable_size_in_bytes(r));
    char *buf = (char *)malloc(size);
    OBS("size", size);
    CHECK(roaring64_bitmap_portable_serialize(r, buf) == size, "portable_serialize writes exactly portable_size_in_bytes bytes");
    if (part == 0) {
        CHECK(roaring64_bitmap_portable_deserialize_size(buf, size) == size, "portable_deserialize_size gives the size written");
        r64 *q = roaring64_bitmap_portable_deserialize_safe(buf, size); same64(r, q, m, x);
        unchanged64(r, m, x);
        roaring64_bitmap_free(q);
    } else if (part == 1) {
        bool has; CHECK(spec64((const uint8_t *)buf, size, m, x, &has), "the portable form has the published layout");
        CHECK(has == q_has(m, x), "the portable form stores exactly the elements");
    } else {
        size_t n = cut < 12 ? size * (size_t)cut / 12 : size - 1 - (size_t)(cut - 12) % size;
        char *b = exact(buf, n);
        CHECK(roaring64_bitmap_portable_deserialize_size(b, n) == 0, "portable_deserialize_size refuses a truncated buffer");
        CHECK(roaring64_bitmap_portable_deserialize_safe(b, n) == 0, "portable_deserialize_safe refuses a truncated buffer");
        free(b);
    }
    free(buf);
}
static void frozen64(r64 *r, const m64 *m, uint64_t x, int part, int cut) {
    size_t s0 = roaring64_bitmap_frozen_size_in_bytes(r);
    roaring64_bitmap_shrink_to_fit(r);
    unchanged64(r, m, x);
    CHECK_64(r, "after shrink_to_fit");
    size_t size = sym_concretize_(roaring64_bitmap_frozen_size_in_bytes(r));
    OBS("size", size);
    CHECK((size > 0) & ((s0 == 0) | (s0 == size)), "a shrunken bitmap has a frozen size, one that is not shrunken has none");
    char *buf = (char *)roaring_aligned_malloc(64, size);
    CHECK(roaring64_bitmap_frozen_serialize(r, buf) == size, "frozen_serialize writes exactly frozen_size_in_bytes bytes");
    if (part == 0) {
        r64 *q = roaring64_bitmap_frozen_view(buf, size); same64(r, q, m, x); unchanged64(r, m, x);
        roaring64_iterator_t *it = roaring64_iterator_create(q);
        CHECK(roaring64_iterator_has_value(it) == (m->n > 0), "an iterator over the frozen view starts at its first element");
        if (m->n) CHECK((roaring64_iterator_value(it) == roaring64_bitmap_minimum(r)) & (roaring64_bitmap_maximum(q) == roaring64_bitmap_maximum(r)), "the frozen view has the same first and last element");
        roaring64_iterator_free(it);
        CHECK(roaring64_bitmap_rank(q, x) == q_rank(m, x), "rank on the frozen view");
        r64 *c = roaring64_bitmap_copy(q);
        size_t ps = sym_concretize_(roaring64_bitmap_portable_size_in_bytes(q)); char *pb = (char *)malloc(ps), *pb2 = (char *)malloc(ps);
        CHECK((roaring64_bitmap_portable_size_in_bytes(r) == ps) & (roaring64_bitmap_portable_serialize(q, pb) == ps) & (roaring64_bitmap_portable_serialize(r, pb2) == ps), "the frozen view has the portable size of the original");
        bool eq = true; for (size_t i = 0; i < ps; i++) eq &= pb[i] == pb2[i];
        CHECK(eq, "the frozen view has the portable form of the original");
        free(pb); free(pb2);
        roaring64_bitmap_or_inplace(r, q); unchanged64(r, m, x);
        roaring64_bitmap_free(q); roaring_aligned_free(buf); buf = 0;
        roaring64_bitmap_add(c, x);
        CHECK(roaring64_bitmap_contains(c, x) & (roaring64_bitmap_get_cardinality(c) == q_card(m) + !q_has(m, x)), "a copy of the frozen view is an ordinary bitmap");
        roaring64_bitmap_free(c);
    } else if (part == 1) {
        char *b = (char *)roaring_aligned_malloc(64, size + 32); memcpy(b + 32, buf, size);
        static const int off[] = {32, 16, 8, 1}; int o = off[cut % 4]; memmove(b + o, b + 32, size);
        CHECK(roaring64_bitmap_frozen_view(b + o, size) == 0, "frozen_view refuses a misaligned buffer");
        roaring_aligned_free(b);
    } else { /* fewer bytes than were written: refused unless only padding is missing, and nothing beyond them is read */
        size_t n = cut < 16 ? size * (size_t)cut / 16 : size - 1 - (size_t)(cut - 16) % size;
        char *b = exact64(buf, n); r64 *q = roaring64_bitmap_frozen_view(b, n);
        if (q) { CHECK(roaring64_bitmap_equals(r, q), "a truncated frozen buffer is refused unless nothing is lost"); CHECK(n + 64 > size, "a truncated frozen buffer is refused"); roaring64_bitmap_free(q); }
        roaring_aligned_free(b);
    }
    if (buf) roaring_aligned_free(buf);
}
static uint64_t pick_x(int mode) { return mode == 1 ? SYM64("x", 0, UINT64_MAX) : q_key(mode, "xk") << 16 | SYM16("x", 0, 65535); }
ENTRY(q_ser) {
    int maxn = P("maxn", 3), c = PICKN("case", (maxn + 1) * 4 * 5), n = c % (maxn + 1), kind = c / (maxn + 1) % 4, part = c / (maxn + 1) / 4;
    int mode = n <= P("any", 2) ? 1 : (n + kind + part) % 3 == 0 ? 0 : (n + kind + part) % 3 == 1 ? 2 : 3;
    q_sym(&g, n, mode, kind, "v");
    r64 *r = q_build(&g); uint64_t x = pick_x(mode);
    if (part < 3) port64(r, &g, x, part, part == 2 ? PICK("cut", 24) : 0);
    else frozen64(r, &g, x, part == 3 ? 0 : 1, part == 4 ? PICK("cut", 4) : 0);
    roaring64_bitmap_free(r);
}
static const int kshape[] = {S_A2, S_R2, S_AMID, S_A4096, S_B4097, S_RMANY, S_BFULL, S_RFULL, S_BMIX};
static void shape64(int c, int *win) {
    uint32_t lo, hi; *win = c % 3; win_bounds(*win, &lo, &hi);
    g.n = 3; g.key[0] = 0x1234; g.key[1] = 0x1235 + (c & 1 ? 0x500000000ull : 0); g.key[2] = 0xFFFFFFFFFFFFull;
    g.c[0] = ck_shape(kshape[c % 9], 0, *win, 0, "a"); g.c[1] = ck_shape(kshape[(c + 4) % 9], 1, *win, 0, "b");
    g.c[2] = ck_shape(kshape[(2 * c + 1) % 9], 0, (*win + 1) % 3, 0, "c");
}
ENTRY(q_ser_shape) {
    int c = PICKN("case", 9 * 6), part = c / 9, win; shape64(c % 9 + part, &win);
    uint32_t lo, hi; win_bounds(win, &lo, &hi);
    r64 *r = q_build(&g); uint64_t x = g.key[c & 1] << 16 | SYM16("x", lo, hi);
    if (part < 3) port64(r, &g, x, part, part == 2 ? PICK("cut", 16) : 0);
    else frozen64(r, &g, x, part == 3 ? 0 : part == 4 ? 1 : 2, part >= 4 ? PICK("cut", 24) : 0);
    roaring64_bitmap_free(r);
}
ENTRY(q_froz_cut) { /* every way of losing the end of a small frozen image */
    int c = PICKN("case", 4 * 96), n = c % 4, cut = c / 4;
    q_sym(&g, n, n <= 1 ? 1 : 2, c % 3 == 2 ? 1 : c % 3, "v");
    r64 *r = q_build(&g); frozen64(r, &g, pick_x(2), 2, cut + 16);
    roaring64_bitmap_free(r);
}
/* nodes of every size, with holes left by removals, frozen and copied */
static const int fans[] = {1, 2, 4, 5, 16, 17, 48, 49, 255, 256};
ENTRY(q_froz_fan) {
    int nl = P("levs", 2), c = PICKN("case", 10 * 3 * nl), f = fans[c % 10], how = c / 10 % 3, lev = nl < 6 ? (c / 30 * 3 + c % 10 + how) % 6 : c / 30;
    uint64_t base = 0x0102030405060708ull & ~((uint64_t)255 << (16 + 8 * lev)), k = SYM8("k", 0, 255), x = base + (k << (16 + 8 * lev)), other = 0xF1F2F3F4F5F6F7F8ull;
    if (!P("full", 0)) ASSUME((k < 2) | ((k >= 11) & (k < 13)) | (k == 48) | (k == 255) | (k == ((uint64_t)(f - 1) * 37 + 11 & 255)) | (k == ((uint64_t)f * 37 + 11 & 255)));
    r64 *r = roaring64_bitmap_create(); bool has = false; int left = 0;
    roaring64_bitmap_add(r, other);
    for (int i = 0; i < f; i++) roaring64_bitmap_add(r, base + ((uint64_t)((i * 37 + 11) & 255) << (16 + 8 * lev)));
    for (int i = 0; i < f; i++) {
        uint8_t b = (uint8_t)(i * 37 + 11); bool gone = how == 1 ? i % 3 == 0 : how == 2 ? i + (f < 4 ? 0 : 3) < f : false;
        if (gone) roaring64_bitmap_remove(r, base + ((uint64_t)b << (16 + 8 * lev))); else { has |= k == b; left++; }
    }
    roaring64_bitmap_remove(r, other);
    roaring64_bitmap_shrink_to_fit(r);
    CHECK_64(r, "after shrink_to_fit");
    CHECK((roaring64_bitmap_contains(r, x) == has) & (roaring64_bitmap_get_cardinality(r) == (uint64_t)left), "shrink_to_fit keeps the elements");
    size_t size = roaring64_bitmap_frozen_size_in_bytes(r);
    CHECK(size > 0, "a shrunken bitmap has a frozen size");
    char *buf = (char *)roaring_aligned_malloc(64, size);
    CHECK(roaring64_bitmap_frozen_serialize(r, buf) == size, "frozen_serialize writes exactly frozen_size_in_bytes bytes");
    r64 *q = roaring64_bitmap_frozen_view(buf, size);
    CHECK(q != 0, "frozen_view accepts what was written");
    CHECK((roaring64_bitmap_contains(q, x) == has) & (roaring64_bitmap_get_cardinality(q) == (uint64_t)left) & roaring64_bitmap_equals(q, r), "the frozen view has exactly the same elements");
    r64 *d = roaring64_bitmap_copy(q);
    roaring64_bitmap_free(q); roaring_aligned_free(buf);
    /* a shrunken bitmap keeps working */
    bool fresh = roaring64_bitmap_add_checked(r, x);
    CHECK((fresh == !has) & roaring64_bitmap_contains(r, x) & (roaring64_bitmap_get_cardinality(r) == (uint64_t)left + !has), "a shrunken bitmap can be added to");
    CHECK_64(r, "after adding to a shrunken bitmap");
    CHECK((roaring64_bitmap_contains(d, x) == has) & (roaring64_bitmap_remove_checked(d, x) == has) & (roaring64_bitmap_get_cardinality(d) == (uint64_t)(left - has)), "a copy is independent of the original");
    roaring64_bitmap_free(d); roaring64_bitmap_free(r);
}
/* ---- D06: bytes of any origin ---- */
static void use64(r64 *r, int op) {
    uint64_t card = roaring64_bitmap_get_cardinality(r), x = SYM64("x", 0, UINT64_MAX);
    bool h = roaring64_bitmap_contains(r, x);
    if (op == 0) {
        CHECK(!h | (card > 0), "a bitmap that contains a value has elements");
        if (card) { uint64_t mn = roaring64_bitmap_minimum(r), mx = roaring64_bitmap_maximum(r); CHECK(roaring64_bitmap_contains(r, mn) & roaring64_bitmap_contains(r, mx) & (!h | ((mn <= x) & (x <= mx))), "minimum and maximum of a validated bitmap"); }
        roaring64_bitmap_add(r, x); CHECK(roaring64_bitmap_contains(r, x) & (roaring64_bitmap_get_cardinality(r) == card + !h), "a validated bitmap can be added to");
    } else if (op == 1) { roaring64_bitmap_remove(r, x); CHECK(!roaring64_bitmap_contains(r, x) & (roaring64_bitmap_get_cardinality(r) == card - h), "a validated bitmap can be removed from"); }
    else if (op == 2) {
        uint64_t y = P("any", 0) ? SYM64("y", 0, UINT64_MAX) : 5ull << 16 | 5; r64 *o = roaring64_bitmap_create(); roaring64_bitmap_add(o, y);
        r64 *q = roaring64_bitmap_xor(r, o); CHECK(roaring64_bitmap_contains(q, x) == (h ^ (x == y)), "a validated bitmap can be combined");
        roaring64_bitmap_free(q); roaring64_bitmap_free(o);
    } else { r64 *q = roaring64_bitmap_copy(r); CHECK(roaring64_bitmap_equals(q, r), "a copy of a validated bitmap equals it"); roaring64_bitmap_run_optimize(q); roaring64_bitmap_shrink_to_fit(q); CHECK(roaring64_bitmap_equals(q, r) & (roaring64_bitmap_contains(q, x) == h), "a validated bitmap can be optimized"); roaring64_bitmap_free(q); }
}
static void read64(char *b, size_t n, int op) {
    uint64_t live = sym_live_allocs_();
    size_t s = roaring64_bitmap_portable_deserialize_size(b, n);
    OBS("size", s);
    CHECK(s <= n, "portable_deserialize_size never announces more bytes than there are");
    r64 *r = roaring64_bitmap_portable_deserialize_safe(b, n);
    OBS("ok", r != 0);
    if (r) {
        CHECK(s != 0, "what portable_deserialize_safe accepts portable_deserialize_size accepts");
        const char *why = 0;
        if (op < 4 && roaring64_bitmap_internal_validate(r, &why)) use64(r, op);
        roaring64_bitmap_free(r);
    }
    CHECK(sym_live_allocs_() == live, "a refused or freed bitmap leaves nothing allocated");
}
ENTRY(q_untr) { /* n bytes chosen by the solver */
    int maxn = P("maxn", 34), c = PICKN("case", (maxn + 1) * 5), n = c % (maxn + 1), op = c / (maxn + 1);
    ASSUME(n >= 8 + 4 + 8 || op == 4);
    char *b = (char *)malloc((size_t)n + !n);
    if (n) sym_bytes_(b, (size_t)n, "b");
    if (n >= 8 && P("onebucket", 1) && n > 12) ASSUME(b[0] < 3);
    read64(b, (size_t)n, op);
    free(b);
}
ENTRY(q_untr_two) { /* a first bucket with one value, then solver-chosen bytes; or one bucket with two or three chunks of any keys */
    int c = PICKN("case", 30 * 5), d = c % 30, op = c / 30; size_t n, at;
    char buf[96]; memset(buf, 0, sizeof buf);
    if (d < 20) { /* second bucket: 22 bytes and up to 3 fewer or more */
        buf[0] = 2; sym_bytes_(buf + 8, 4, "hi"); buf[12] = 0x3a; buf[13] = 0x30; buf[16] = 1; buf[20] = 5; buf[24] = 16; at = 30;
        n = at + 4 + (size_t)d + 3; sym_bytes_(buf + at, 4, "hi2"); sym_bytes_(buf + at + 4, n - at - 4, "b");
    } else { int k = 2 + d % 2; buf[0] = 1; buf[12] = 0x3a; buf[13] = 0x30; buf[16] = (char)k; n = 20 + 4 * (size_t)k;
        for (int i = 0; i < k; i++) sym_bytes_(buf + 20 + 4 * i, 2, "key");
        n += 4 * (size_t)k; for (int i = 0; i < k; i++) { buf[20 + 4 * k + 4 * i] = (char)(8 + 8 * k + 2 * i); sym_bytes_(buf + n, 2, "val"); n += 2; }
        if (d >= 24) n -= (size_t)d - 24; }
    char *b = exact(buf, n);
    read64(b, n, op);
    free(b);
}
/* ---- D07 ---- */
ENTRY(q_store) { /* copy, run_optimize, shrink_to_fit and statistics keep the set and stay independent */
    int shape = P("shape", 0), c = shape ? PICKN("case", 9 * 5) : PICKN("case", 4 * 4 * 5), op, win, mode = 1; uint64_t x;
    if (shape) { shape64(c % 9, &win); op = c / 9; uint32_t lo, hi; win_bounds(win, &lo, &hi); x = g.key[0] << 16 | SYM16("x", lo, hi); }
    else { int n = c % 4, kind = c / 4 % 4; op = c / 16; mode = n <= 2 ? 1 : 2; q_sym(&g, n, mode, kind, "v"); x = pick_x(mode); }
    r64 *r = q_build(&g), *q = 0; bool h = q_has(&g, x); uint64_t card = q_card(&g);
    if (op == 0 || op == 4) { q = roaring64_bitmap_copy(r); same64(r, q, &g, x);
        if (op == 4) { roaring64_bitmap_free(r); r = q; q = 0; if (h) roaring64_bitmap_remove(r, x); else roaring64_bitmap_add(r, x);
            CHECK((roaring64_bitmap_contains(r, x) == !h) & (roaring64_bitmap_get_cardinality(r) == (h ? card - 1 : card + 1)), "a copy works after the original is gone"); roaring64_bitmap_free(r); return; }
        if (h) roaring64_bitmap_remove(r, x); else roaring64_bitmap_add(r, x);
        CHECK((roaring64_bitmap_contains(q, x) == h) & (roaring64_bitmap_get_cardinality(q) == card), "changing the original leaves the copy alone");
        roaring64_bitmap_free(r); r = q; }
    else if (op == 1) { bool runs = roaring64_bitmap_run_optimize(r); roaring64_statistics_t st; roaring64_bitmap_statistics(r, &st); CHECK(runs == (st.n_run_containers > 0), "run_optimize tells whether there are run chunks");
        size_t f = roaring64_bitmap_shrink_to_fit(r); (void)f; CHECK(roaring64_bitmap_shrink_to_fit(r) == 0, "shrinking twice frees nothing more"); }
    else if (op == 2) { roaring64_bitmap_shrink_to_fit(r); }
    else { roaring64_statistics_t st; memset(&st, 0x5a, sizeof st); roaring64_bitmap_statistics(r, &st);
        CHECK(st.cardinality == card, "statistics gives the cardinality");
        CHECK((st.n_containers == (uint64_t)g.n) & (st.n_array_containers + st.n_run_containers + st.n_bitset_containers == st.n_containers), "statistics counts the chunks by form");
        CHECK(st.n_values_array_containers + st.n_values_run_containers + st.n_values_bitset_containers == card, "statistics counts the values by form");
        CHECK((st.min_value == roaring64_bitmap_minimum(r)) & (st.max_value == roaring64_bitmap_maximum(r)) & (st.n_bytes_bitset_containers == st.n_bitset_containers * 8192) & (st.n_bytes_array_containers == 2 * st.n_values_array_containers), "statistics gives ends and sizes"); }
    CHECK_64(r, "after the operation");
    CHECK((roaring64_bitmap_contains(r, x) == h) & (roaring64_bitmap_get_cardinality(r) == card), "the operation keeps the elements");
    uint64_t y = op == 0 ? x : g.n ? g.key[0] << 16 | 0x1239 : 77; bool hy = q_has(&g, y);
    roaring64_bitmap_add(r, y); roaring64_bitmap_add(r, ~0ull - 5);
    CHECK((roaring64_bitmap_contains(r, x) == (h | (x == y) | (x == ~0ull - 5))) & (roaring64_bitmap_contains(r, y)), "the bitmap can be changed afterwards");
    CHECK(roaring64_bitmap_get_cardinality(r) == card + !hy + (!q_has(&g, ~0ull - 5) & (y != ~0ull - 5)), "the bitmap counts right afterwards");
    roaring64_bitmap_free(r);
}
ENTRY(q_move32) { /* from a 32-bit bitmap, which stays usable and empty; also when its chunks are shared copy-on-write */
    int shape = P("shape", 0), c = PICKN("case", (shape ? 18 : 12) * 3), cow = c % 3, k = c / 3; model_t m; uint32_t x; uint32_t lo, hi;
    if (shape) { win_bounds(k % 3, &lo, &hi); m.n = 2; m.key[0] = 3; m.c[0] = ck_shape(k, 0, k % 3, 0, "a"); m.key[1] = 0xFFFF; m.c[1] = ck_shape((k + 5) % 18, 1, k % 3, 0, "b"); x = 3u << 16 | SYM16("x", lo, hi); }
    else { m_sym(&m, k % 3, k / 3, "v"); x = SYM32("x", 0, UINT32_MAX); }
    roaring_bitmap_t *b = m_build(&m), *copy = 0; bool h = m_has(&m, x); uint64_t card = m_card(&m);
    if (cow) { roaring_bitmap_set_copy_on_write(b, true); copy = roaring_bitmap_copy(b); }
    r64 *r = roaring64_bitmap_move_from_roaring32(b);
    CHECK((roaring64_bitmap_contains(r, x) == h) & (roaring64_bitmap_get_cardinality(r) == card) & !roaring64_bitmap_contains(r, (uint64_t)x | 1ull << 40), "the 64-bit bitmap has exactly the elements moved");
    CHECK(roaring_bitmap_is_empty(b) & (roaring_bitmap_get_cardinality(b) == 0) & !roaring_bitmap_contains(b, x), "the 32-bit bitmap is left empty");
    CHECK_64(r, "the 64-bit bitmap");
    if (cow == 2) { roaring_bitmap_free(copy); copy = 0; }
    uint64_t y = (uint64_t)x; bool want = !h;
    if (h) roaring64_bitmap_remove(r, y); else roaring64_bitmap_add(r, y);
    CHECK((roaring64_bitmap_contains(r, y) == want) & (roaring64_bitmap_get_cardinality(r) == (h ? card - 1 : card + 1)), "the 64-bit bitmap can be changed");
    if (copy) { CHECK((roaring_bitmap_contains(copy, x) == h) & (roaring_bitmap_get_cardinality(copy) == card), "a copy of the 32-bit bitmap is unaffected");
        roaring64_bitmap_run_optimize(r); roaring64_bitmap_shrink_to_fit(r);
        CHECK((roaring64_bitmap_contains(r, y) == want) & (roaring_bitmap_contains(copy, x) == h) & rd_wf(copy, false), "storage operations keep both"); }
    roaring_bitmap_add(b, 9); CHECK(roaring_bitmap_get_cardinality(b) == 1, "the 32-bit bitmap can be used again");
    roaring_bitmap_free(b); if (copy) roaring_bitmap_free(copy); roaring64_bitmap_free(r);
}
