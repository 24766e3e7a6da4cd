#include "m64.h"
/* D03: ranges over 64-bit bitmaps */
static const uint64_t bases[] = {0, 0x7FFE, 0xFFFE, 0x1234FFFEull, 0x8000FFFFFFFEull, 0xFFFFFFFFFFFCull};
/* which of four consecutive chunks are there, and what they hold */
static const char *const lay[] = {"0000", "1000", "0100", "0010", "0001", "1100", "1010", "1001", "0110", "0101", "0011", "1110", "1101", "1011", "0111", "1111"};
static chunk_t *q_ck(int t, const char *nm) {
    if (t == 0 && !P("full", 0)) { chunk_t *c = ck_new(AR); c->np = 1; c->plus[0] = SYM16(nm, 0x123c, 0x1243); ck_done(c); return c; }
    if (t < 4) return q_chunk(t, nm);
    uint32_t lo, hi; win_bounds(0, &lo, &hi);
    chunk_t *c = ck_shape(t == 4 ? S_B4097 : t == 5 ? S_RHOLE : S_BMIX, 0, 0, 0, nm); return c;
}
static void q_layout(m64 *m, uint64_t base, int l, int t) {
    m->n = 0;
    for (int i = 0; i < 4; i++) if (lay[l][i] == '1') { m->key[m->n] = base + (uint64_t)i; m->c[m->n] = q_ck((t + m->n) % 2 == 0 || t >= 4 && m->n == 0 ? t : 2, "v"); m->n++; }
}
/* low parts near the values the chunks hold, and the chunk borders */
static uint64_t q_low(const char *nm, int where) {
    if (P("full", 0)) return SYM16(nm, 0, 65535);
    uint32_t w = (uint32_t)P("win", 3);
    return where % 3 == 0 ? SYM16(nm, 0, 2) : where % 3 == 1 ? SYM16(nm, 65533, 65535) : SYM16(nm, 0x1240 - w, 0x1240 + w - 1);
}
enum { R_ADD, R_ADDC, R_REM, R_REMC, R_FLIPI, R_FLIPCI, R_FLIP, R_FLIPC, N_R };
ENTRY(q_range) {
    int nb = P("nb", 2), c = PICKN("case", N_R * 16 * nb * 6), op = c % N_R, l = c / N_R % 16, k = c / N_R / 16;
    uint64_t base = bases[(k / 6 * 3 + l + op) % 6]; int span = k % 6; /* chunk of the first and of the last value */
    static const int s0[] = {0, 0, 1, 1, 0, 2}, s1[] = {0, 1, 1, 3, 2, 3};
    int t = (l + op + k) % (P("big", 0) ? 7 : 4);
    m64 m; q_layout(&m, base, l, t);
    int wl = c / 5 + c / 35; uint64_t lo = q_low("lo", wl), hi = q_low("hi", wl / 3 + s0[span] + op);
    uint64_t min = (base + (uint64_t)s0[span]) << 16 | lo, max = (base + (uint64_t)s1[span]) << 16 | hi; /* may be empty or reversed */
    bool closed = op & 1, any = closed ? min <= max : min < max; uint64_t last = closed ? max : max - 1;
    r64 *r = q_build(&m), *o = r;
    uint64_t n = q_card(&m), in = any ? q_rank(&m, last) - (min ? q_rank(&m, min - 1) : 0) : 0, len = any ? last - min + 1 : 0, want;
    switch (op) {
        case R_ADD: roaring64_bitmap_add_range(r, min, max); break;
        case R_ADDC: roaring64_bitmap_add_range_closed(r, min, max); break;
        case R_REM: roaring64_bitmap_remove_range(r, min, max); break;
        case R_REMC: roaring64_bitmap_remove_range_closed(r, min, max); break;
        case R_FLIPI: roaring64_bitmap_flip_inplace(r, min, max); break;
        case R_FLIPCI: roaring64_bitmap_flip_closed_inplace(r, min, max); break;
        case R_FLIP: r = roaring64_bitmap_flip(o, min, max); break;
        default: r = roaring64_bitmap_flip_closed(o, min, max); break;
    }
    int f = op / 2; want = f == 0 ? n + len - in : f == 1 ? n - in : n + len - 2 * in;
    OBS("card", roaring64_bitmap_get_cardinality(r));
    CHECK(roaring64_bitmap_get_cardinality(r) == want, "a range update changes exactly the values of the range");
    CHECK_64(r, "range update");
    uint64_t x = (base + SYM8("xc", 0, 3)) << 16 | q_low("x", wl);
    bool h = q_has(&m, x), inr = any & (x >= min) & (x <= last);
    CHECK(roaring64_bitmap_contains(r, x) == (inr ? (f == 0 ? true : f == 1 ? false : !h) : h), "a range update changes exactly the values of the range (one value)");
    if (o != r) { CHECK((roaring64_bitmap_contains(o, x) == h) & (roaring64_bitmap_get_cardinality(o) == n), "flip leaves its input unchanged"); roaring64_bitmap_free(o); }
    roaring64_bitmap_add(r, x); CHECK(roaring64_bitmap_contains(r, x), "the bitmap can be updated afterwards");
    roaring64_bitmap_free(r);
}
ENTRY(q_rangeq) { /* queries about ranges, with any bounds around the four chunks */
    int c = PICKN("case", 16 * 6 * 5), l = c % 16, t = c / 16 % 6, b = c / 96; uint64_t base = bases[(b + l) % 6];
    m64 m; q_layout(&m, base, l, t < 4 ? t : t);
    uint64_t min = (base + SYM8("minc", 0, 3)) << 16 | q_low("lo", c + c / 3), max = b == 4 ? UINT64_MAX - SYM8("maxlow", 0, 2) : (base + SYM8("maxc", 0, 3)) << 16 | q_low("hi", c / 3 + t);
    if (b == 3 && base) min -= (uint64_t)3 << 16;
    r64 *r = q_build(&m);
    uint64_t below = min ? q_rank(&m, min - 1) : 0, exc = min < max ? q_rank(&m, max - 1) - below : 0, inc = min <= max ? q_rank(&m, max) - below : 0;
    OBS("n", roaring64_bitmap_range_cardinality(r, min, max));
    CHECK(roaring64_bitmap_range_cardinality(r, min, max) == exc, "range_cardinality counts the values in [min, max)");
    CHECK(roaring64_bitmap_range_closed_cardinality(r, min, max) == inc, "range_closed_cardinality counts the values in [min, max]");
    CHECK(roaring64_bitmap_contains_range(r, min, max) == (min >= max || exc == max - min), "contains_range is true exactly when every value of [min, max) is there");
    CHECK(roaring64_bitmap_intersect_with_range(r, min, max) == (exc != 0), "intersect_with_range is true exactly when a value of [min, max) is there");
    roaring64_bitmap_free(r);
}
ENTRY(q_from) { /* values at a distance k*step from min */
    int c = PICKN("case", 6 * 8), b = c % 6, k = c / 6; uint64_t base = bases[b];
    static const uint32_t st[] = {1, 2, 3, 64, 20000, 65535, 65536, 0};
    uint64_t step = st[k], min = (base << 16) + 0xFFF8 + SYM8("lo", 0, P("full", 0) ? 15 : 3), len;
    if (k < 4) len = SYM8("len", 0, P("full", 0) ? 40 : 14) * (k == 3 ? 8 : 1) + (b == 1 ? 65600 : 0);
    if (k >= 2 && k < 4 && b == 1) { min = sym_concretize_(min); len = 65600 + (uint64_t)PICK("l", 4); }
    else if (k >= 4 && k < 7) len = (uint64_t)(b + 1) * 65534 + SYM8("len", 0, 6);
    else if (k == 7) { step = ((uint64_t)SYM16("step", 1, 65535) << (16 + 6 * b)) + SYM8("stepl", 0, 255); int j = PICK("j3", 3); len = (uint64_t)j * step + SYM8("len", 0, 255); }
    if (k == 7 && b % 3 == 0) min = UINT64_MAX - SYM8("fromend", 0, 255);
    if (len > UINT64_MAX - min) len = UINT64_MAX - min; /* max stops at the end of the universe */
    r64 *r = roaring64_bitmap_from_range(min, min + len, step);
    if (len == 0) { CHECK(r == 0, "an empty range is refused"); return; }
    CHECK(r != 0, "from_range returns a bitmap");
    uint64_t n = sym_concretize_(roaring64_bitmap_get_cardinality(r));
    OBS("n", n);
    CHECK_64(r, "from_range");
    if (k < 7) CHECK(n == (len - 1) / step + 1, "from_range holds one value per step");
    else { CHECK((n >= 1) & (n <= 3), "from_range holds one value per step");
        CHECK(((n - 1) * step < len) & ((n == 1 ? step : n == 2 ? 2 * step : 3 * step) >= len || n * step < step), "from_range holds one value per step"); }
    uint64_t x = k == 7 ? SYM64("x", 0, UINT64_MAX) : min - 2 + SYM8("x", 0, 40) * (k == 3 ? 8 : 1), d = x - min;
    bool want = k < 7 ? (x >= min) & (d < len) & (d % step == 0) : (x == min) | ((n > 1) & (d == step)) | ((n > 2) & (d == 2 * step));
    CHECK(roaring64_bitmap_contains(r, x) == want, "from_range holds exactly the values at a distance k*step");
    if (k >= 4 && k < 7) { uint64_t y = min + step * SYM8("j", 0, 12); CHECK(roaring64_bitmap_contains(r, y) == ((y >= min) & (y - min < len)), "from_range holds exactly the values at a distance k*step"); }
    roaring64_bitmap_free(r);
}
