#include "upd.c"
#include "spec.h"
/* C12 portable and native serialization, C13 frozen, C14 untrusted bytes, C15 validated bitmaps from untrusted bytes. */
static bool same_words(const uint64_t *a, const uint64_t *b) { uint64_t d = 0; for (int i = 0; i < 1024; i++) d |= a[i] ^ b[i]; return d == 0; }
static void ser_truncations(const char *buf, size_t size, const char *nat, size_t nsize) {
    size_t cut[8] = { 0, 3, 4, 7, 8, size / 2, size - 1, size - 2 };
    int k = PICK("cut", 8); size_t n = cut[k] < size ? cut[k] : size - 1;
    char *b = exact(buf, n);
    CHECK(roaring_bitmap_portable_deserialize_size(b, n) == 0, "portable_deserialize_size refuses a truncated buffer");
    CHECK(roaring_bitmap_portable_deserialize_safe(b, n) == 0, "portable_deserialize_safe refuses a truncated buffer");
    free(b);
    n = cut[k] < nsize ? cut[k] : nsize - 1;
    if (k >= 5) n = nsize - 1 - (k == 7) - (k == 5 ? nsize / 2 : 0);
    b = exact(nat, n);
    CHECK(roaring_bitmap_deserialize_safe(b, n) == 0, "deserialize_safe refuses a truncated buffer");
    free(b);
}
typedef struct { const wset_t *ws; const model_t *m; uint32_t x; } want_t;
static void same(const roaring_bitmap_t *r, const roaring_bitmap_t *q, const want_t *w, const char *what) {
    (void)what;
    CHECK(rd_wf(q, false), "the reproduced bitmap is well formed");
    if (w->ws) CHECK(rd_is(q, w->ws), "the reproduced bitmap has exactly the same elements");
    else CHECK(rd_has(q, w->x) == m_has(w->m, w->x), "the reproduced bitmap has exactly the same elements");
    CHECK(roaring_bitmap_equals(r, q) & roaring_bitmap_equals(q, r), "the reproduced bitmap equals the original");
    CHECK(roaring_bitmap_get_cardinality(q) == m_card(w->m), "the reproduced bitmap has the same cardinality");
}
static void ser_check(const roaring_bitmap_t *r, const want_t *w, int part) {
    size_t size = sym_concretize_(roaring_bitmap_portable_size_in_bytes(r)), nsize = sym_concretize_(roaring_bitmap_size_in_bytes(r));
    OBS("size", size); OBS("nsize", nsize);
    char *buf = (char *)malloc(size), *nat = (char *)malloc(nsize);
    CHECK(roaring_bitmap_portable_serialize(r, buf) == size, "portable_serialize writes exactly portable_size_in_bytes bytes");
    CHECK(roaring_bitmap_serialize(r, nat) == nsize, "serialize writes exactly size_in_bytes bytes");
    roaring_bitmap_t *q;
    if (part == 0) {
        CHECK(roaring_bitmap_portable_deserialize_size(buf, size) == size, "portable_deserialize_size gives the size written");
        q = roaring_bitmap_portable_deserialize_safe(buf, size);
        CHECK(q != 0, "portable_deserialize_safe accepts what was written"); same(r, q, w, "safe"); roaring_bitmap_free(q);
    } else if (part == 1) {
        q = roaring_bitmap_portable_deserialize(buf);
        CHECK(q != 0, "portable_deserialize accepts what was written"); same(r, q, w, "plain"); roaring_bitmap_free(q);
        q = roaring_bitmap_deserialize(nat);
        CHECK(q != 0, "deserialize accepts what was written"); same(r, q, w, "native"); roaring_bitmap_free(q);
    } else if (part == 2) {
        q = roaring_bitmap_deserialize_safe(nat, nsize);
        CHECK(q != 0, "deserialize_safe accepts what was written"); same(r, q, w, "native safe"); roaring_bitmap_free(q);
        q = roaring_bitmap_portable_deserialize_frozen(buf);
        CHECK(q != 0, "portable_deserialize_frozen accepts what was written"); same(r, q, w, "frozen view of the portable form"); roaring_bitmap_free(q);
    } else if (part == 3) ser_truncations(buf, size, nat, nsize);
    else { /* the published format */
        static uint64_t sw[1024]; bool wf = true; uint16_t key = 0;
        int n = spec_n((const uint8_t *)buf);
        CHECK(n == w->m->n, "the portable form announces the number of chunks");
        for (int i = 0; i < n; i++) {
            bool has = false; size_t got = spec_read((const uint8_t *)buf, i, &key, w->ws ? sw : 0, &wf, (uint16_t)w->x, &has);
            CHECK(got == size, "the portable form has the published layout");
            CHECK(wf & (key == w->m->key[i]), "the portable form has the published headers and offsets");
            if (w->ws) CHECK(same_words(sw, w->ws->w[i]), "the portable form stores exactly the elements");
            else CHECK(has == ck_has(w->m->c[i], (uint16_t)w->x), "the portable form stores exactly the elements");
        }
        if (n == 0) CHECK(size == 8 && g32((const uint8_t *)buf) == 12346, "the empty bitmap has the published form");
    }
    free(buf); free(nat);
}
ENTRY(ser_kernel) {
    int part = pick_shape(5);
    roaring_bitmap_t *r = shape_bm(part, P("spread", 0));
    want_t w = { &w0, &g_m, 0 };
    if (P("runopt", 0)) roaring_bitmap_run_optimize(r);
    ser_check(r, &w, part);
    CHECK(rd_is(r, &w0), "serializing leaves the bitmap unchanged");
    roaring_bitmap_free(r);
}
/* several chunks; concrete keys and kinds by layout around the threshold of four for the offset header */
static void m_lay(model_t *m, int n, int lay, bool symkeys) {
    static const uint16_t keys[6] = {0, 1, 7, 0x8000, 0xfffe, 0xffff};
    m->n = n;
    for (int i = 0; i < n; i++) {
        m->key[i] = symkeys ? SYM16("key", 0, 65535) : keys[(i + lay) % 6 < i ? i : (i + (lay % (7 - n)))];
        int k = (i + lay) % 3;
        chunk_t *c = ck_new(k == 1 ? RN : AR); m->c[i] = c;
        if (k == 0) { c->np = 1; c->plus[0] = SYM16("v", 0, 65535); }
        if (k == 1) { c->nr = 1; c->rs[0] = SYM16("v", 0x1238, 0x1247); c->re[0] = (uint16_t)(c->rs[0] + SYM16("v", 0, 7)); }
        if (k == 2) { c->np = 1; c->plus[0] = SYM16("v", 0x1238, 0x1247); w_set(c->w, 2); w_set(c->w, 0xfff0); }
        if (lay >= 3 && k == 1) c->kind = AR, c->nr = 0, c->np = 2, c->plus[0] = 5, c->plus[1] = SYM16("v", 6, 65535); /* no runs at all */
        ck_done(c);
    }
    if (symkeys) for (int i = 1; i < n; i++) ASSUME(m->key[i - 1] < m->key[i]);
}
ENTRY(ser_keys) {
    int c = PICKN("case", 20 * P("maxn", 6)), part = DIG(c, 5), lay = DIG(c, 4), n = c, cow = part == 0 ? PICK("cow", 2) : 0;
    m_lay(&g_m, n, lay, true);
    roaring_bitmap_t *r = m_build(&g_m), *copy = 0;
    if (cow) { roaring_bitmap_set_copy_on_write(r, true); copy = roaring_bitmap_copy(r); }
    want_t w = { 0, &g_m, SYM32("x", 0, UINT32_MAX) };
    ser_check(r, &w, part);
    CHECK(rd_has(r, w.x) == m_has(&g_m, w.x), "serializing leaves the bitmap unchanged");
    roaring_bitmap_free(r); if (copy) roaring_bitmap_free(copy);
}

/* five to three chunks of mixed large shapes at fixed keys: offsets beyond large containers */
static void m_mixed(model_t *m, int n, int lay) {
    static const uint16_t keys[6] = {0, 3, 4, 0x8000, 0xfffe, 0xffff};
    m->n = n;
    for (int i = 0; i < n; i++) { m->key[i] = keys[i + (6 - n)]; m->c[i] = ck_shape((i * 5 + lay * 7 + n) % N_SHAPES, i & 1, (i + lay) % 3, 0, "a"); }
}
static void ws_same(const roaring_bitmap_t *r, const roaring_bitmap_t *q, const wset_t *w) {
    CHECK(q != 0, "what was written is accepted");
    CHECK(rd_wf(q, false) & rd_is(q, w), "the reproduced bitmap has exactly the same elements");
    CHECK(roaring_bitmap_equals(r, q) & roaring_bitmap_equals(q, r), "the reproduced bitmap equals the original");
}
ENTRY(ser_mixed) {
    int c = PICKN("case", 108), n = 3 + DIG(c, 3), lay = DIG(c, 9), part = c;
    m_mixed(&g_m, n, lay); ws_of(&g_m, &w0);
    roaring_bitmap_t *r = m_build(&g_m), *q;
    want_t w = { &w0, &g_m, 0 };
    if (part < 2) ser_check(r, &w, part ? 4 : 0);
    else if (part == 2) ser_check(r, &w, 2);
    else { char *buf = (char *)roaring_aligned_malloc(32, roaring_bitmap_frozen_size_in_bytes(r)); roaring_bitmap_frozen_serialize(r, buf); q = (roaring_bitmap_t *)roaring_bitmap_frozen_view(buf, roaring_bitmap_frozen_size_in_bytes(r)); ws_same(r, q, &w0); roaring_bitmap_free(q); roaring_aligned_free(buf); }
    roaring_bitmap_free(r);
}
/* ---- C13 ---- */
static char *aligned_exact(const char *src, size_t n) { char *b = (char *)roaring_aligned_malloc(32, n + !n); memcpy(b, src, n); return b; }
static void frz_check(const roaring_bitmap_t *r, const want_t *w, int part) {
    size_t size = sym_concretize_(roaring_bitmap_frozen_size_in_bytes(r));
    OBS("size", size);
    char *raw = (char *)malloc(size);
    roaring_bitmap_frozen_serialize(r, raw);
    char *buf = aligned_exact(raw, size);
    const roaring_bitmap_t *v = 0;
    if (part <= 1) {
        v = roaring_bitmap_frozen_view(buf, size);
        CHECK(v != 0, "frozen_view accepts what was written");
        same(r, v, w, "frozen view");
    }
    if (part == 1) { /* reading operations */
        roaring_bitmap_t *c = roaring_bitmap_copy(v);
        same(r, c, w, "copy of a frozen view");
        uint32_t y = KEY << 16 | 5; roaring_bitmap_add(c, y); roaring_bitmap_remove(c, KEY << 16 | 77);
        roaring_bitmap_t *u = roaring_bitmap_or(v, c), *a = roaring_bitmap_and(v, r), *d = roaring_bitmap_andnot(v, r);
        CHECK(roaring_bitmap_equals(a, r), "a frozen view intersected with the original is the original");
        CHECK(roaring_bitmap_is_empty(d), "a frozen view without the original is empty");
        CHECK(roaring_bitmap_contains(u, y) & roaring_bitmap_is_subset(a, v), "a union with a frozen view has the other side's elements");
        CHECK(roaring_bitmap_is_subset(v, u) & roaring_bitmap_is_subset(a, v), "subset tests work on frozen views");
        roaring_bitmap_free(u); roaring_bitmap_free(a); roaring_bitmap_free(d); roaring_bitmap_free(c);
        if (w->m->n) CHECK((roaring_bitmap_minimum(v) == roaring_bitmap_minimum(r)) & (roaring_bitmap_maximum(v) == roaring_bitmap_maximum(r)), "minimum and maximum work on frozen views");
        same(r, v, w, "frozen view after use");
    }
    if (v) roaring_bitmap_free(v);
    uint64_t diff = 0; for (size_t i = 0; i < size; i++) diff |= (uint64_t)(uint8_t)(buf[i] ^ raw[i]);
    CHECK(diff == 0, "reading a frozen view never writes to the buffer");
    if (part == 2) { /* misaligned, and lengths contradicting the trailer */
        char *big = (char *)roaring_aligned_malloc(32, size + 64);
        int o = 1 + PICK("off", 31);
        memcpy(big + o, raw, size);
        CHECK(roaring_bitmap_frozen_view(big + o, size) == 0, "frozen_view refuses a misaligned buffer");
        roaring_aligned_free(big);
    }
    if (part == 3) {
        static const int delta[8] = {-8192, -4, -2, -1, 1, 2, 4, 8192};
        int d = delta[PICK("delta", 8)]; size_t tail = 4 + 5 * (size_t)w->m->n, n = size + (size_t)(int64_t)d;
        if ((int64_t)size + d >= (int64_t)tail) {
            char *b = (char *)roaring_aligned_malloc(32, n); memset(b, 1, n);
            memcpy(b + n - tail, raw + size - tail, tail);
            CHECK(roaring_bitmap_frozen_view(b, n) == 0, "frozen_view refuses a length that contradicts the recorded sizes");
            roaring_aligned_free(b);
        }
        for (size_t k = 0; k < 4; k++) { char *b = aligned_exact(raw + size - k, k); CHECK(roaring_bitmap_frozen_view(b, k) == 0, "frozen_view refuses fewer bytes than a header"); roaring_aligned_free(b); }
    }
    free(raw); roaring_aligned_free(buf);
}
ENTRY(frz_kernel) {
    int part = pick_shape(4);
    roaring_bitmap_t *r = shape_bm(part, P("spread", 0));
    want_t w = { &w0, &g_m, 0 };
    frz_check(r, &w, part);
    CHECK(rd_is(r, &w0), "freezing leaves the bitmap unchanged");
    roaring_bitmap_free(r);
}
ENTRY(frz_keys) {
    int c = PICKN("case", 16 * P("maxn", 5)), part = DIG(c, 4), lay = DIG(c, 4), n = c, cow = part < 2 ? PICK("cow", 2) : 0;
    m_lay(&g_m, n, lay, true);
    roaring_bitmap_t *r = m_build(&g_m), *copy = 0;
    if (cow) { roaring_bitmap_set_copy_on_write(r, true); copy = roaring_bitmap_copy(r); }
    want_t w = { 0, &g_m, SYM32("x", 0, UINT32_MAX) };
    frz_check(r, &w, part);
    CHECK(rd_has(r, w.x) == m_has(&g_m, w.x), "freezing leaves the bitmap unchanged");
    roaring_bitmap_free(r); if (copy) roaring_bitmap_free(copy);
}
