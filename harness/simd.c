#include "alg.c"
/* C18: arrays whose lengths lie around the vector lengths */
static const int sizes[] = {7, 8, 9, 15, 16, 17, 24, 25, 31, 33, 40, 65};
static chunk_t *va(int n, int off, int skew, int p, int k, const char *nm) { /* n values 24 apart, k of them free in the window at step p */
    chunk_t *c = ck_new(AR); int have = 0; uint32_t lo = 20 + 24 * (uint32_t)p, hi = lo + 2 * (uint32_t)P("win", 3);
    for (int i = 0; have < n - k; i++) { uint32_t v = 20 + 24 * (uint32_t)(i + off) + (skew && i % 3 == 0 ? 4 : 0); if (v + 1 >= lo && v <= hi + 1) continue; w_set(c->w, v); have++; }
    c->np = k; sym_sorted(c->plus, k, lo, hi, nm); ck_done(c); return c;
}
ENTRY(simd_arrays) {
    int ns = 12, c = PICKN("case", 12 * 12 * 2), ia = c % ns, ib = c / ns % ns, z = c / ns / ns, na = sizes[ia], nb = sizes[ib];
    int op = (ia + 2 * ib + z) % 4, inplace = (ia + ib / 2 + z) % 2, skew = (ia + ib) % 2, off = z ? na / 2 : 0, p = (ia + ib) % 3 == 0 ? off : (ia + ib) % 3 == 1 ? na / 2 : na - 1;
    if (P("full", 0)) { op = PICK("op", 4); inplace = PICK("inplace", 2); skew = PICK("skew", 2); p = PICK("p", na + 1); off = PICK("off", 3) * na / 2; }
    chunk_t *A = va(na, 0, 0, p, 2, "a"), *B = va(nb, off, skew, p, 1 + (ia + z) % 2, "b");
    model_t ma = m_one(7, A), mb = m_one(7, B);
    run(op, inplace, &ma, &mb, true, 0);
    roaring_bitmap_t *a = m_build(&ma), *b = m_build(&mb);
    ws_of(&ma, &wa); ws_of(&mb, &wb); ws_comb(0, &wa, &wb, &wr);
    uint64_t n = ws_card(&wr);
    CHECK(roaring_bitmap_and_cardinality(a, b) == n, "and_cardinality is the size of the intersection");
    CHECK(roaring_bitmap_intersect(a, b) == (n != 0), "intersect is true exactly when the intersection is not empty");
    CHECK(roaring_bitmap_is_subset(a, b) == (n == (uint64_t)na), "is_subset is inclusion");
    uint32_t out[66]; bool ok = true; out[na] = 0x12345; roaring_bitmap_to_uint32_array(a, out);
    for (int i = 0; i < na; i++) ok &= m_has(&ma, out[i]) & (i == 0 || out[i - 1] < out[i]);
    CHECK(ok & (out[na] == 0x12345), "to_uint32_array writes exactly the elements in order");
    roaring_bitmap_free(a); roaring_bitmap_free(b);
}
