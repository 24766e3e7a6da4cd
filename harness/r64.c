#include "upd.c"
#include <roaring/roaring64.h>
/* D01..D05, D07: 64-bit bitmaps. The model is the list of values last added and removed, any 64-bit values. */
typedef roaring64_bitmap_t r64;
typedef struct { int n; uint64_t v[12]; bool add[12]; } lst;
static void l_put(lst *l, uint64_t v, bool add) { l->v[l->n] = v; l->add[l->n++] = add; }
static bool l_has(const lst *l, uint64_t x) { bool h = false; for (int i = 0; i < l->n; i++) h = l->v[i] == x ? l->add[i] : h; return h; }
static uint64_t l_card(const lst *l) { /* values whose last mention added them */
    uint64_t n = 0;
    for (int i = 0; i < l->n; i++) { bool last = true; for (int j = i + 1; j < l->n; j++) last &= l->v[j] != l->v[i]; n += last & l->add[i]; }
    return n;
}
static uint64_t l_rank(const lst *l, uint64_t x) { /* elements <= x */
    uint64_t n = 0;
    for (int i = 0; i < l->n; i++) { bool last = l->v[i] <= x; for (int j = i + 1; j < l->n; j++) last &= l->v[j] != l->v[i]; n += last & l->add[i]; }
    return n;
}
/* values: of kind 0 anything, 1 keys that differ in one chosen byte, 2 the same chunk, 3 next to the end of the universe */
static uint64_t val(int kind, const char *nm) {
    if (kind == 0) return SYM64(nm, 0, UINT64_MAX);
    if (kind == 1) { uint64_t b = SYM8(nm, 0, 255), lo = SYM8(nm, 0, 3); return 0x1122334455667788ull ^ (b << (16 + 8 * P("byte", 2))) ^ lo; }
    if (kind == 2) return 0xFFEE000000070000ull | SYM16(nm, 0x1238, 0x1247);
    return UINT64_MAX - ((uint64_t)SYM8(nm, 0, 255) << 14);
}
static void l_check(const r64 *r, const lst *l, uint64_t x) {
    bool want = l_has(l, x);
    OBS("has", roaring64_bitmap_contains(r, x));
    CHECK(roaring64_bitmap_contains(r, x) == want, "the 64-bit bitmap contains exactly the values last added");
    uint64_t n = l_card(l);
    CHECK(roaring64_bitmap_get_cardinality(r) == n, "get_cardinality counts the elements");
    CHECK(roaring64_bitmap_is_empty(r) == (n == 0), "is_empty agrees with the set");
    const char *why = 0;
    CHECK(roaring64_bitmap_internal_validate(r, &why), "internal_validate accepts the bitmap");
    n = sym_concretize_(n);
    uint64_t out[12]; bool ok = true;
    roaring64_bitmap_to_uint64_array(r, out);
    for (uint64_t i = 0; i < n; i++) ok &= l_has(l, out[i]) & (i == 0 || out[i - 1] < out[i]);
    CHECK(ok, "to_uint64_array writes the elements in order");
    if (n) CHECK((roaring64_bitmap_minimum(r) == out[0]) & (roaring64_bitmap_maximum(r) == out[n - 1]), "minimum and maximum are the first and last element");
    else CHECK((roaring64_bitmap_minimum(r) == UINT64_MAX) & (roaring64_bitmap_maximum(r) == 0), "minimum and maximum of the empty bitmap");
}
enum { Q_ADD, Q_ADDC, Q_REM, Q_REMC, Q_ADDM, Q_REMM, Q_ABULK, Q_RBULK, Q_OFPTR, N_Q };
static r64 *q_op(r64 *r, lst *l, int op, int kind) {
    uint64_t y = val(kind, "y");
    switch (op) {
        case Q_ADD: roaring64_bitmap_add(r, y); l_put(l, y, true); break;
        case Q_ADDC: { bool was = l_has(l, y); CHECK(roaring64_bitmap_add_checked(r, y) == !was, "add_checked tells whether the set changed"); l_put(l, y, true); break; }
        case Q_REM: roaring64_bitmap_remove(r, y); l_put(l, y, false); break;
        case Q_REMC: { bool was = l_has(l, y); CHECK(roaring64_bitmap_remove_checked(r, y) == was, "remove_checked tells whether the set changed"); l_put(l, y, false); break; }
        case Q_ADDM: { uint64_t z = val(kind, "z"), v[2] = {y, z}; roaring64_bitmap_add_many(r, 2, v); l_put(l, y, true); l_put(l, z, true); break; }
        case Q_REMM: { uint64_t z = val(kind, "z"), v[2] = {y, z}; roaring64_bitmap_remove_many(r, 2, v); l_put(l, y, false); l_put(l, z, false); break; }
        case Q_ABULK: case Q_RBULK: {
            uint64_t z = val(kind, "z"); roaring64_bulk_context_t c; memset(&c, 0, sizeof c);
            if (op == Q_ABULK) { bool h = l_has(l, z); CHECK(roaring64_bitmap_contains_bulk(r, &c, z) == h, "contains_bulk answers for the current set");
                roaring64_bitmap_add_bulk(r, &c, y); roaring64_bitmap_add_bulk(r, &c, z); l_put(l, y, true); l_put(l, z, true);
                CHECK(roaring64_bitmap_contains_bulk(r, &c, y), "contains_bulk answers for the current set"); }
            else { roaring64_bitmap_remove_bulk(r, &c, y); roaring64_bitmap_remove_bulk(r, &c, z); l_put(l, y, false); l_put(l, z, false); }
            break; }
        case Q_OFPTR: { uint64_t z = val(kind, "z"), v[3] = {z, y, z}; roaring64_bitmap_free(r); r = roaring64_bitmap_of_ptr(3, v); l->n = 0; l_put(l, z, true); l_put(l, y, true); break; }
    }
    return r;
}
ENTRY(q_seq) { /* short histories with any values */
    int maxn = P("maxn", 2), k = P("k", 2);
    int k0 = P("kind0", 0), kn = P("kinds", 1), c = PICKN("case", kn * (maxn + 1) * (k > 1 ? N_Q : 1) * N_Q), kind = k0 + c % kn, n0, op[2]; c /= kn;
    n0 = c % (maxn + 1); c /= maxn + 1; op[0] = c % N_Q; op[1] = c / N_Q;
    lst l; l.n = 0; r64 *r = roaring64_bitmap_create();
    for (int i = 0; i < n0; i++) { uint64_t v = val(kind, "v"); roaring64_bitmap_add(r, v); l_put(&l, v, true); }
    for (int i = 0; i < k; i++) r = q_op(r, &l, op[i], kind);
    uint64_t x = val(kind, "x");
    l_check(r, &l, x);
    if (op[0] == Q_REM) { roaring64_bitmap_clear(r); CHECK(roaring64_bitmap_is_empty(r) & !roaring64_bitmap_contains(r, x), "clear empties the bitmap"); roaring64_bitmap_add(r, x); CHECK(roaring64_bitmap_contains(r, x), "a cleared bitmap can be used"); }
    roaring64_bitmap_free(r);
}
/* a node with f children, all values but two fixed: grows and shrinks through every node size */
static const int fans[] = {1, 2, 3, 4, 5, 15, 16, 17, 47, 48, 49, 254, 255, 256};
static uint64_t fan_val(int i, int lev) { return 0x0102030405060708ull + ((uint64_t)((i * 37 + 11) & 255) << (16 + 8 * lev)) - (6ull - lev << (16 + 8 * lev)); }
ENTRY(q_fan) {
    int nl = P("levs", 6), c = PICKN("case", 14 * 3 * nl), f = fans[c % 14], op = c / 14 % 3, lev = c / 42 % 6; if (nl < 6) lev = (c / 42 * 3 + f) % 6;
    r64 *r = roaring64_bitmap_create(); uint64_t base = 0x0000000000000708ull;
    for (int j = 5; j >= 0; j--) if (j != lev) base |= (uint64_t)(0x21 + j) << (16 + 8 * j);
    for (int i = 0; i < f; i++) roaring64_bitmap_add(r, base | (uint64_t)((i * 37 + 11) & 255) << (16 + 8 * lev));
    /* y has any byte at that level, or differs at another level */
    uint64_t b = SYM8("b", 0, 255), o = SYM8("o", 0, P("full", 0) ? 255 : 1); int ol = (lev + 1 + c % 5) % 6; if (ol == lev) ol = (lev + 1) % 6;
    if (!P("full", 0)) ASSUME((b < 3) | ((b >= 11) & (b < 14)) | (b == 48) | (b == 255) | (b == ((uint64_t)(f - 1) * 37 + 11 & 255)) | (b == ((uint64_t)f * 37 + 11 & 255)));
    if (P("conc", 0)) { b = sym_concretize_(b); o = sym_concretize_(o); }
    uint64_t y = (base | b << (16 + 8 * lev)) ^ o << (16 + 8 * ol);
    bool was = false; for (int i = 0; i < f; i++) was |= (b == ((uint64_t)(i * 37 + 11) & 255)); was &= o == 0;
    uint64_t n = (uint64_t)f;
    if (op == 0) { CHECK(roaring64_bitmap_add_checked(r, y) == !was, "add_checked tells whether the set changed"); n += !was; }
    else { CHECK(roaring64_bitmap_remove_checked(r, y) == was, "remove_checked tells whether the set changed"); n -= was; }
    CHECK(roaring64_bitmap_get_cardinality(r) == n, "get_cardinality counts the elements");
    CHECK(roaring64_bitmap_contains(r, y) == (op == 0), "the value is there exactly when it was added");
    const char *why = 0; CHECK(roaring64_bitmap_internal_validate(r, &why), "internal_validate accepts the bitmap");
    uint64_t x = base | (uint64_t)SYM8("xb", 11, 14) << (16 + 8 * lev); bool xin = x == y && op == 0;
    for (int i = 0; i < f; i++) xin |= x == (base | (uint64_t)((i * 37 + 11) & 255) << (16 + 8 * lev));
    xin &= !(op != 0 && x == y);
    CHECK(roaring64_bitmap_contains(r, x) == xin, "the other values stay");
    if (op == 2) { /* take everything away again, in another order than it came */
        for (int i = f - 1; i >= 0; i -= 2) roaring64_bitmap_remove(r, base | (uint64_t)((i * 37 + 11) & 255) << (16 + 8 * lev));
        for (int i = f - 2; i >= 0; i -= 2) roaring64_bitmap_remove(r, base | (uint64_t)((i * 37 + 11) & 255) << (16 + 8 * lev));
        CHECK(roaring64_bitmap_is_empty(r), "removing every element empties the bitmap");
        roaring64_bitmap_add(r, y); CHECK(roaring64_bitmap_contains(r, y) & (roaring64_bitmap_get_cardinality(r) == 1), "an emptied bitmap can be used");
    }
    roaring64_bitmap_free(r);
}
