#include "upd.c"
/* C14: readers of arbitrary bytes touch only those bytes; C15: what validates is safe and coherent to use. */
static char *sym_buf(size_t n, size_t nsym, const char *nm) { /* n bytes, the first nsym chosen by the solver */
    char *b = (char *)malloc(n + !n);
    memset(b, 0, n + !n);
    if (n) sym_bytes_(b, nsym < n ? nsym : n, nm);
    return b;
}
static void read_all(const char *b, size_t n) {
    size_t s = roaring_bitmap_portable_deserialize_size(b, n);
    OBS("size", s);
    CHECK(s <= n, "portable_deserialize_size never announces more bytes than there are");
    roaring_bitmap_t *r = roaring_bitmap_portable_deserialize_safe(b, n);
    OBS("ok", r != 0);
    if (r) { CHECK(s != 0, "what portable_deserialize_safe accepts portable_deserialize_size accepts"); roaring_bitmap_free(r); }
}
ENTRY(untr_port) {
    int n = PICK("n", P("maxn", 25));
    sym_shard_((uint64_t)n);
    char *b = sym_buf((size_t)n, (size_t)n, "b");
    if (n >= 4 && P("run", 2) < 2) ASSUME((P("run", 2) == 1) == ((uint8_t)b[0] == 0x3b));
    read_all(b, (size_t)n);
    free(b);
}
ENTRY(untr_native) {
    int n = PICK("n", P("maxn", 18));
    sym_shard_((uint64_t)n);
    uint64_t live = sym_live_allocs_();
    char *b = sym_buf((size_t)n, (size_t)n, "b");
    roaring_bitmap_t *r = roaring_bitmap_deserialize_safe(b, (size_t)n);
    OBS("ok", r != 0);
    if (r) roaring_bitmap_free(r);
    CHECK(sym_live_allocs_() == live + 1, "deserialize_safe and freeing its result leave nothing allocated");
    free(b);
}
ENTRY(untr_big) { /* large chunks: header bytes and counts chosen by the solver, lengths around the exact one */
    int form = PICK("form", 4), d = PICK("delta", 5), cut = PICK("cut", 2);
    sym_shard_((uint64_t)(form * 5 + d) * 2 + cut);
    /* 0: one chunk, no runs; 1: two chunks, no runs; 2: run cookie, one chunk; 3: run cookie, five chunks */
    static const size_t hd[4] = {16, 24, 9, 4 + 1 + 20 + 20};
    size_t n = hd[form] + 8192 + (form == 1 && cut ? 8192 : 0) + (size_t)d - 2;
    char *b = sym_buf(n, hd[form] + (form >= 2 ? 6 : 0), "b");
    if (form < 2) { b[0] = 0x3a; b[1] = 0x30; b[2] = b[3] = 0; b[4] = (char)(form + 1); b[5] = b[6] = b[7] = 0; }
    else { b[0] = 0x3b; b[1] = 0x30; b[2] = (char)(form == 2 ? 0 : 4); b[3] = 0; }
    for (int i = 0; i < (form == 1 ? 2 : form == 3 ? 5 : 0); i++) { /* counts near the limits of the storage forms */
        uint16_t c; memcpy(&c, b + (form == 1 ? 8 : 5) + 4 * i + 2, 2);
        if (form == 3) { uint16_t nr; memcpy(&nr, b + 45, 2); ASSUME(P("full", 0) ? (b[4] & ~0x11) == 0 : ((b[4] & ~1) == 0) & ((b[4] == 0) | (nr < 3) | ((nr >= 2047) & (nr < 2051)) | (nr == 65535))); if (i == 1 || i == 2) { memset(b + 5 + 4 * i, 0, 4); b[5 + 4 * i] = (char)i; c = 0; } }
        ASSUME((c < 2) | ((i == 0 || form == 1) & (((c >= 4094) & (c < 4098)) | (c == 65535))));
    }
    read_all(b, n);
    free(b);
}
ENTRY(untr_frozen) {
    int n = PICK("n", P("maxn", 24)), mis = PICK("mis", 2);
    sym_shard_((uint64_t)n * 2 + mis);
    char *b = (char *)roaring_aligned_malloc(32, (size_t)n + 32), *c;
    (void)c;
    roaring_aligned_free(b);
    b = (char *)roaring_aligned_malloc(32, (size_t)n + (n == 0) + mis);
    memset(b, 0, (size_t)n + (n == 0) + mis);
    if (n) sym_bytes_(b + mis, (size_t)n, "b");
    const roaring_bitmap_t *r = roaring_bitmap_frozen_view(b + mis, (size_t)n);
    OBS("ok", r != 0);
    if (mis) CHECK(r == 0, "frozen_view refuses a misaligned buffer");
    if (r) roaring_bitmap_free(r);
    roaring_aligned_free(b);
}
ENTRY(untr_frozen_big) { /* a bitset among others: trailer bytes chosen by the solver */
    int k = 1 + PICK("k", 3), d = PICK("delta", 5);
    sym_shard_((uint64_t)(k * 5 + d));
    uint64_t live = sym_live_allocs_();
    size_t tail = 4 + 5 * (size_t)k, n = 8192 + tail + (size_t)d * 2 - (size_t)2;
    char *b = (char *)roaring_aligned_malloc(32, n);
    memset(b, 0, n);
    sym_bytes_(b + n - tail, tail, "b");
    b[n - 4] = (char)0xc6; b[n - 3] = (char)(0x35 | (k & 1) << 7); b[n - 2] = (char)(k >> 1); b[n - 1] = 0;
    const roaring_bitmap_t *r = roaring_bitmap_frozen_view(b, n);
    OBS("ok", r != 0);
    if (r) roaring_bitmap_free(r);
    CHECK(sym_live_allocs_() == live + 1, "frozen_view and freeing its result leave nothing allocated");
    roaring_aligned_free(b);
}

/* ---- C15 ---- */
enum { V_READ, V_ADD, V_REM, V_OR, V_AND, V_XORIN, V_ANDNOT, V_SER, V_OPT, V_FLIP, V_ITER, V_RANGE, V_ORIN, V_ANDIN, N_V };
static void use_valid(roaring_bitmap_t *r, int op, bool big) {
    uint64_t card = rd_card(r);
    CHECK(roaring_bitmap_get_cardinality(r) == card, "a validated bitmap reports its real cardinality");
    uint32_t x = SYM32("x", 0, UINT32_MAX), y = SYM32("y", 0, UINT32_MAX);
    bool hx = rd_has(r, x);
    if (!big && op != V_READ && op != V_SER && op != V_ITER && !P("full", 0)) ASSUME(card <= (op == V_ANDNOT ? 12 : 40));
    if (big) { uint16_t l = (uint16_t)y; ASSUME((l >= 31864) & (l < 31896)); if (op == V_READ) ASSUME(x == y); }
    roaring_bitmap_t *o = 0, *q = 0;
    if (op == V_OR || op == V_AND || op == V_XORIN || op == V_ANDNOT || op == V_ORIN || op == V_ANDIN) { o = roaring_bitmap_create(); roaring_bitmap_add(o, y); }
    switch (op) {
        case V_READ: {
            CHECK(roaring_bitmap_contains(r, x) == hx, "contains works on a validated bitmap");
            if (card) { uint32_t mn = roaring_bitmap_minimum(r), mx = roaring_bitmap_maximum(r); CHECK(rd_has(r, mn) & rd_has(r, mx) & (!hx | ((mn <= x) & (x <= mx))), "minimum and maximum work on a validated bitmap"); }
            uint32_t e = 0; CHECK(roaring_bitmap_select(r, 1, &e) == (card > 1), "select works on a validated bitmap");
            roaring_bitmap_t *c = roaring_bitmap_copy(r); CHECK(roaring_bitmap_equals(c, r), "a copy of a validated bitmap equals it"); roaring_bitmap_free(c);
            break; }
        case V_ADD: roaring_bitmap_add(r, y); hx |= x == y; q = r; break;
        case V_REM: roaring_bitmap_remove(r, y); hx &= x != y; q = r; break;
        case V_OR: q = roaring_bitmap_or(r, o); hx |= x == y; break;
        case V_AND: q = roaring_bitmap_and(o, r); hx &= x == y; break;
        case V_XORIN: roaring_bitmap_xor_inplace(r, o); hx ^= x == y; q = r; break;
        case V_ORIN: roaring_bitmap_or_inplace(r, o); hx |= x == y; q = r; break;
        case V_ANDIN: roaring_bitmap_and_inplace(r, o); hx &= x == y; q = r; break;
        case V_ANDNOT: q = roaring_bitmap_andnot(r, o); hx &= x != y; break;
        case V_SER: {
            size_t n = sym_concretize_(roaring_bitmap_portable_size_in_bytes(r)); char *b = (char *)malloc(n);
            CHECK(roaring_bitmap_portable_serialize(r, b) == n, "a validated bitmap serializes to the announced size");
            q = roaring_bitmap_portable_deserialize_safe(b, n);
            CHECK(q != 0, "a validated bitmap serialized again is accepted");
            CHECK(roaring_bitmap_equals(q, r), "a validated bitmap serialized again deserializes to an equal one");
            free(b); break; }
        case V_OPT: roaring_bitmap_run_optimize(r); roaring_bitmap_shrink_to_fit(r); q = r; break;
        case V_FLIP: { uint32_t s = y & 0xffff0000u; roaring_bitmap_flip_inplace(r, s, (uint64_t)s + 5); hx ^= (x >= s) & (x - s < 5); q = r; break; }
        case V_RANGE: { uint32_t s = y & 0xffff0000u; roaring_bitmap_add_range(r, s, (uint64_t)s + 5); roaring_bitmap_remove_range(r, (uint64_t)s + 2, (uint64_t)s + 4); hx = (hx | ((x >= s) & (x - s < 5))) & !((x - s >= 2) & (x - s < 4)); q = r; break; }
        case V_ITER: {
            roaring_uint32_iterator_t it; uint64_t n = 0; uint32_t prev = 0; bool ok = true; roaring_iterator_init(r, &it);
            while (it.has_value && n < 12) { ok &= (n == 0 || it.current_value > prev) & rd_has(r, it.current_value); prev = it.current_value; n++; roaring_uint32_iterator_advance(&it); }
            CHECK(ok & (n == card || n == 12), "a validated bitmap enumerates its elements in order");
            break; }
    }
    if (q) { CHECK(rd_wf(q, false) & (rd_has(q, x) == hx), "operations on a validated bitmap give the right set"); CHECK(roaring_bitmap_get_cardinality(q) == rd_card(q), "operations on a validated bitmap report the right cardinality"); }
    if (q && q != r) roaring_bitmap_free(q);
    if (o) roaring_bitmap_free(o);
}
static void validate_use(const char *b, size_t n, int op, bool big) {
    roaring_bitmap_t *r = roaring_bitmap_portable_deserialize_safe(b, n);
    ASSUME(r != 0);
    const char *why = 0;
    bool ok = roaring_bitmap_internal_validate(r, &why);
    OBS("valid", ok);
    if (ok) {
        CHECK(rd_wf(r, false), "internal_validate accepts only coherent bitmaps");
        use_valid(r, op, big);
    }
    roaring_bitmap_free(r);
}
ENTRY(val_small) { /* every buffer of n bytes */
    int n = PICK("n", P("maxn", 23)), op = PICK("op", N_V);
    sym_shard_((uint64_t)n * N_V + op);
    ASSUME(n >= 8);
    char *b = sym_buf((size_t)n, (size_t)n, "b");
    validate_use(b, (size_t)n, op, false);
    free(b);
}
/* bitset and long array chunks: cardinality and some content bytes chosen by the solver */
ENTRY(val_big) {
    int form = PICK("form", 3), op = PICK("op", N_V);
    sym_shard_((uint64_t)form * N_V + op);
    size_t n = form == 2 ? 8 + 8 + 2 * 40 : 16 + 8192;
    char *b = sym_buf(n, 16, "b");
    b[0] = 0x3a; b[1] = 0x30; b[2] = b[3] = 0; b[4] = 1; b[5] = b[6] = b[7] = 0;
    if (form == 0) { for (int i = 16; i < 16 + 520; i++) b[i] = (char)0xff; sym_bytes_(b + 4000, 1, "w"); }
    else {
        int k = form == 2 ? 40 : 4096; uint16_t v;
        for (int i = 0; i < k; i++) { v = (uint16_t)(form == 2 ? 20 * i + 3 : 3 * i + 5); memcpy(b + 16 + 2 * i, &v, 2); }
        int at = form == 2 ? 20 : 2000; sym_bytes_(b + 16 + 2 * at, form == 2 ? 4 : 2, "w"); v = (uint16_t)(k - 1); memcpy(b + 10, &v, 2);
    }
    validate_use(b, n, op, true);
    free(b);
}
