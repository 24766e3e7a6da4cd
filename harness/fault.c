#include "ser.c"
/* C20: one allocation of a call fails, the solver chooses which (none: 0). Run with hook=1. */
static uint64_t f_live; static bool f_cow;
static void f_arm(void) { f_live = hk_live_; hk_failed_ = 0; hk_fail_ = SYM32("fail", 0, 60); }
static bool f_off(void) { bool hit = hk_fail_ != 0 && hk_failed_ >= hk_fail_; hk_fail_ = 0; return hit; }
static void f_model(int n, int lay) { m_mixed(&g_m, n, lay); ws_of(&g_m, &w0); }
static void f_result(const roaring_bitmap_t *q, bool hit, const wset_t *w, bool frozen) {
    OBS("made", q != 0);
    if (!hit) CHECK(q != 0, "the call succeeds when no allocation fails");
    if (!q) { CHECK(f_cow || hk_live_ == f_live, "a failed call leaves nothing allocated"); return; } /* a shared chunk keeps its counter while its owner lives */
    CHECK((frozen || rd_wf(q, false)) & rd_is(q, w), "what a successful call returns is complete");
    roaring_bitmap_free(q);
}
static void f_src(const roaring_bitmap_t *r, const char *when) {
    CHECK(rd_is(r, &w0), "the source bitmap is unchanged by a failed call");
    const char *why = 0; CHECK(roaring_bitmap_internal_validate(r, &why), "the source bitmap stays valid"); (void)when;
}
ENTRY(fault_copy) {
    int c = PICKN("case", 4 * 9 * 4), n = DIG(c, 4), lay = DIG(c, 9), cow = c % 2, had = c / 2; /* had: some containers are shared already */
    f_model(n, lay);
    roaring_bitmap_t *r = m_build(&g_m), *k = 0;
    if (had) { roaring_bitmap_set_copy_on_write(r, true); k = roaring_bitmap_copy(r); if (n) roaring_bitmap_add(r, (uint32_t)g_m.key[0] << 16 | 77), roaring_bitmap_remove(r, (uint32_t)g_m.key[0] << 16 | 77), roaring_bitmap_add(k, (uint32_t)g_m.key[0] << 16 | 77);
        if (n) { w_clr(w0.w[0], 77); int nz = 0; for (int i = 0; i < 1024; i++) nz |= w0.w[0][i] != 0; ASSUME(nz); } }
    roaring_bitmap_set_copy_on_write(r, cow || had); f_cow = cow || had;
    f_arm();
    roaring_bitmap_t *q = roaring_bitmap_copy(r);
    bool hit = f_off();
    f_src(r, "copy");
    f_result(q, hit, &w0, false);
    f_src(r, "free");
    q = roaring_bitmap_copy(r); CHECK(q && rd_is(q, &w0), "a later copy succeeds"); roaring_bitmap_free(r);
    CHECK(rd_is(q, &w0), "the copy outlives the source"); roaring_bitmap_free(q); if (k) roaring_bitmap_free(k);
}
ENTRY(fault_overwrite) {
    int c = PICKN("case", 4 * 9 * 2 * 4), n = DIG(c, 4), lay = DIG(c, 9), cow = DIG(c, 2), dn = c; model_t d; static wset_t wd;
    f_model(n, lay);
    d.n = dn; static const uint16_t dk[3] = {1, 3, 0x8000};
    for (int i = 0; i < dn; i++) { d.key[i] = dk[i]; d.c[i] = ck_shape((i * 7 + lay) % N_SHAPES, i & 1, lay % 3, 0, "d"); }
    ws_of(&d, &wd);
    roaring_bitmap_t *r = m_build(&g_m), *t = m_build(&d), *keep = 0;
    if (lay % 2 && dn) { roaring_bitmap_set_copy_on_write(t, true); keep = roaring_bitmap_copy(t); }
    roaring_bitmap_set_copy_on_write(r, cow);
    f_arm();
    bool ok = roaring_bitmap_overwrite(t, r), hit = f_off();
    OBS("ok", ok);
    f_src(r, "overwrite");
    const char *why = 0;
    if (!hit) CHECK(ok, "the call succeeds when no allocation fails");
    CHECK(roaring_bitmap_internal_validate(t, &why), "the destination stays valid");
    if (ok) CHECK(rd_is(t, &w0), "a successful overwrite is complete");
    else { roaring_bitmap_add(t, 12345); CHECK(roaring_bitmap_contains(t, 12345), "the destination of a failed overwrite can be used"); ok = roaring_bitmap_overwrite(t, r); CHECK(ok && rd_is(t, &w0), "a later overwrite succeeds"); }
    f_src(r, "overwrite");
    roaring_bitmap_free(t); f_src(r, "free"); roaring_bitmap_free(r);
    if (keep) { CHECK(rd_is(keep, &wd), "a copy of the destination is unchanged"); roaring_bitmap_free(keep); }
}
ENTRY(fault_read) {
    int c = PICKN("case", 4 * 9 * 7), n = DIG(c, 4), lay = DIG(c, 9), how = c;
    f_model(n, lay);
    roaring_bitmap_t *r = m_build(&g_m); bool fz = how == 4;
    size_t size = sym_concretize_(how < 3 || how == 5 ? roaring_bitmap_portable_size_in_bytes(r) : fz ? roaring_bitmap_frozen_size_in_bytes(r) : roaring_bitmap_size_in_bytes(r));
    char *b = (char *)roaring_aligned_malloc(32, size + !size);
    if (how < 3 || how == 5) roaring_bitmap_portable_serialize(r, b); else if (fz) roaring_bitmap_frozen_serialize(r, b); else roaring_bitmap_serialize(r, b);
    if (!fz && how != 5 && how >= 3) ASSUME(b[0] == 2); /* the form of plain values goes through add, which has no way to fail */
    f_arm();
    roaring_bitmap_t *q = how == 0 ? roaring_bitmap_portable_deserialize_safe(b, size) : how == 1 ? roaring_bitmap_portable_deserialize(b) : how == 2 ? roaring_bitmap_portable_deserialize_frozen(b)
        : how == 3 ? roaring_bitmap_deserialize_safe(b, size) : fz ? (roaring_bitmap_t *)roaring_bitmap_frozen_view(b, size) : how == 5 ? roaring_bitmap_portable_deserialize_safe(b, size - 1) : roaring_bitmap_deserialize(b);
    bool hit = f_off();
    if (how == 5) { CHECK(q == 0 && hk_live_ == f_live, "a truncated image is refused and nothing stays allocated"); }
    else f_result(q, hit, &w0, fz || how == 2);
    roaring_aligned_free(b); f_src(r, "read"); roaring_bitmap_free(r);
}
ENTRY(fault_create) {
    int how = PICKN("how", 10); uint32_t cap = PICK("cap", 3) * 20000;
    roaring_bitmap_t s, *q; const char *why = 0; roaring_bitmap_t *r = roaring_bitmap_from_range(5, 200000, 3);
    bitset_t *b = bitset_create_with_capacity(200), *b2; bitset_set(b, 77); bitset_set(b, 130);
    roaring_uint32_iterator_t *i0 = roaring_iterator_create(r), *it; uint32_t first = i0->current_value;
    f_arm();
    if (how == 0) { q = roaring_bitmap_create(); bool hit = f_off(); CHECK(hit || q, "create succeeds when no allocation fails"); if (q) { CHECK(roaring_bitmap_internal_validate(q, &why) && roaring_bitmap_is_empty(q), "a new bitmap is empty"); roaring_bitmap_free(q); } }
    else if (how == 1) { q = roaring_bitmap_create_with_capacity(cap * 4); bool hit = f_off(); CHECK(hit || q, "create succeeds when no allocation fails"); if (q) { CHECK(roaring_bitmap_is_empty(q), "a new bitmap is empty"); roaring_bitmap_add(q, cap); roaring_bitmap_free(q); } }
    else if (how == 2) { bool ok = roaring_bitmap_init_with_capacity(&s, cap), hit = f_off(); CHECK(hit || ok, "init succeeds when no allocation fails"); if (ok) { roaring_bitmap_add(&s, cap); CHECK(roaring_bitmap_contains(&s, cap), "an initialised bitmap is usable"); } roaring_bitmap_clear(&s); }
    else if (how == 3) { it = roaring_iterator_create(r); bool hit = f_off(); CHECK(hit || it, "iterator creation succeeds when no allocation fails"); if (it) { CHECK(it->has_value && it->current_value == first, "a new iterator is at the first value"); roaring_uint32_iterator_free(it); } }
    else if (how == 4) { it = roaring_uint32_iterator_copy(i0); bool hit = f_off(); CHECK(hit || it, "iterator copy succeeds when no allocation fails"); if (it) { CHECK(it->has_value && it->current_value == first, "a copied iterator is where the original is"); roaring_uint32_iterator_free(it); } }
    else if (how == 5) { b2 = bitset_create_with_capacity(cap); bool hit = f_off(); CHECK(hit || b2, "bitset creation succeeds when no allocation fails"); if (b2) { CHECK(bitset_count(b2) == 0, "a new bitset is empty"); bitset_free(b2); } }
    else if (how == 6) { b2 = bitset_copy(b); bool hit = f_off(); CHECK(hit || b2, "bitset copy succeeds when no allocation fails"); if (b2) { CHECK(bitset_count(b2) == 2 && bitset_get(b2, 77) && bitset_get(b2, 130), "a copied bitset is the same"); bitset_free(b2); } }
    else if (how == 7) { bool ok = bitset_resize(b, 20 + cap / 64, true), hit = f_off(); CHECK(hit || ok, "resize succeeds when no allocation fails"); }
    else if (how == 8) { bool ok = bitset_grow(b, 20 + cap / 64), hit = f_off(); CHECK(hit || ok, "grow succeeds when no allocation fails"); }
    else { b2 = bitset_create(); bool hit = f_off(); CHECK(hit || b2, "bitset creation succeeds when no allocation fails"); if (b2) { bool ok; hk_failed_ = 0; hk_fail_ = SYM32("fail2", 0, 4); ok = roaring_bitmap_to_bitset(r, b2); hit = f_off(); CHECK(hit || ok, "to_bitset succeeds when no allocation fails"); if (ok) CHECK(bitset_count(b2) == roaring_bitmap_get_cardinality(r), "to_bitset writes all values"); bitset_free(b2); } }
    CHECK(bitset_count(b) == 2 && bitset_get(b, 77) && bitset_get(b, 130), "the bitset keeps its content");
    CHECK(i0->has_value && i0->current_value == first, "the iterator stays where it is");
    roaring_uint32_iterator_free(i0); bitset_free(b); roaring_bitmap_free(r);
}
