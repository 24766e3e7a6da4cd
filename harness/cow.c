#include "upd.c"
/* C16: what one of several copies goes through never reaches the others, with and without copy-on-write. */
enum { K_ADD, K_REM, K_ADDM, K_REMM, K_BULK, K_ADDR, K_REMR, K_FLIP, K_OPT, K_UNRUN, K_SHRINK, K_CLEAR, K_AND, K_OR, K_XOR, K_ANDNOT, K_LOR, K_LXOR,
       K_SAND, K_SOR, K_SXOR, K_SANDNOT, K_OFF, K_OVER, K_T_AND, K_T_OR, K_T_XOR, K_T_ANDNOT, K_T_LAZY, K_T_MANY, K_T_XMANY, K_T_HEAP, K_T_FLIP, K_T_OFFSET, K_NOCOW, N_K };
static wset_t E[3], EO, ET; static roaring_bitmap_t *B[3], *O; static int nB; static bool g_cow;
/* a value by the window: any in the kernel, a few fixed ones in long histories */
static uint16_t kval(const char *nm) { return P("conc", 0) || (nm[0] == 'o' && !P("full", 0)) ? (uint16_t)(g_lo + (nm[0] == 'y' || nm[0] == 's')) : near_win(nm); }
static void ws_copy(wset_t *d, const wset_t *s) { d->n = s->n; for (int i = 0; i < s->n; i++) { d->key[i] = s->key[i]; memcpy(d->w[i], s->w[i], 8192); } }
static uint64_t *ws_mut(wset_t *s, uint16_t key) { /* the words of a key, added if missing */
    int i = 0;
    while (i < s->n && s->key[i] < key) i++;
    if (i < s->n && s->key[i] == key) return s->w[i];
    for (int j = s->n; j > i; j--) { s->key[j] = s->key[j - 1]; memcpy(s->w[j], s->w[j - 1], 8192); }
    s->n++; s->key[i] = key; memset(s->w[i], 0, 8192);
    return s->w[i];
}
/* applies op to bitmap t; its expected words follow */
static void k_op(int op, int t) {
    roaring_bitmap_t *r = B[t], *sib = B[t ? 0 : 1]; wset_t *e = &E[t], *se = &E[t ? 0 : 1];
    uint32_t base = KEY << 16; roaring_bitmap_t *q = 0; static wset_t tmp, tmp2;
    switch (op) {
        case K_ADD: { uint16_t y = kval("y"); roaring_bitmap_add(r, base + y); or_bit(ws_mut(e, KEY), y); break; }
        case K_REM: { uint16_t y = kval("y"); roaring_bitmap_remove(r, base + y); clr_bit(ws_mut(e, KEY), y); break; }
        case K_ADDM: { uint16_t y = kval("y"); uint32_t v[2] = {base + y, base + 65536 + 5}; roaring_bitmap_add_many(r, 2, v); or_bit(ws_mut(e, KEY), y); w_set(ws_mut(e, KEY + 1), 5); break; }
        case K_REMM: { uint16_t y = kval("y"); uint32_t v[2] = {base + y, base + 77}; roaring_bitmap_remove_many(r, 2, v); clr_bit(ws_mut(e, KEY), y); w_clr(ws_mut(e, KEY), 77); break; }
        case K_BULK: { uint16_t y = kval("y"); roaring_bulk_context_t c; memset(&c, 0, sizeof c); roaring_bitmap_contains_bulk(r, &c, base + 1); roaring_bitmap_add_bulk(r, &c, base + y); roaring_bitmap_add_bulk(r, &c, base + 9); or_bit(ws_mut(e, KEY), y); w_set(ws_mut(e, KEY), 9); break; }
        case K_ADDR: case K_REMR: case K_FLIP: {
            uint16_t s = kval("s"), f = (uint16_t)(s + 3); ASSUME(s <= 65532);
            uint64_t *w = ws_mut(e, KEY);
            if (op == K_ADDR) { roaring_bitmap_add_range_closed(r, base + s, base + f); or_range(w, s, f); }
            else if (op == K_REMR) { roaring_bitmap_remove_range_closed(r, base + s, base + f); for (int i = 0; i < 4; i++) clr_bit(w, (uint16_t)(s + i)); }
            else { roaring_bitmap_flip_inplace_closed(r, base + s, base + f); flip_range_w(w, s, f); }
            break; }
        case K_OPT: roaring_bitmap_run_optimize(r); break;
        case K_UNRUN: roaring_bitmap_remove_run_compression(r); break;
        case K_SHRINK: roaring_bitmap_shrink_to_fit(r); break;
        case K_CLEAR: roaring_bitmap_clear(r); e->n = 0; break;
        case K_AND: roaring_bitmap_and_inplace(r, O); ws_comb(0, e, &EO, &tmp); ws_copy(e, &tmp); break;
        case K_OR: roaring_bitmap_or_inplace(r, O); ws_comb(1, e, &EO, &tmp); ws_copy(e, &tmp); break;
        case K_XOR: roaring_bitmap_xor_inplace(r, O); ws_comb(2, e, &EO, &tmp); ws_copy(e, &tmp); break;
        case K_ANDNOT: roaring_bitmap_andnot_inplace(r, O); ws_comb(3, e, &EO, &tmp); ws_copy(e, &tmp); break;
        case K_LOR: roaring_bitmap_lazy_or_inplace(r, O, PICK("conv", 2)); roaring_bitmap_repair_after_lazy(r); ws_comb(1, e, &EO, &tmp); ws_copy(e, &tmp); break;
        case K_LXOR: roaring_bitmap_lazy_xor_inplace(r, O); roaring_bitmap_repair_after_lazy(r); ws_comb(2, e, &EO, &tmp); ws_copy(e, &tmp); break;
        case K_SAND: roaring_bitmap_and_inplace(r, sib); ws_comb(0, e, se, &tmp); ws_copy(e, &tmp); break;
        case K_SOR: roaring_bitmap_or_inplace(r, sib); ws_comb(1, e, se, &tmp); ws_copy(e, &tmp); break;
        case K_SXOR: roaring_bitmap_xor_inplace(r, sib); ws_comb(2, e, se, &tmp); ws_copy(e, &tmp); break;
        case K_SANDNOT: roaring_bitmap_andnot_inplace(r, sib); ws_comb(3, e, se, &tmp); ws_copy(e, &tmp); break;
        case K_OFF: { q = roaring_bitmap_add_offset(r, 131072); ws_copy(&ET, e); for (int i = 0; i < ET.n; i++) ET.key[i] += 2; break; }
        case K_OVER: CHECK(roaring_bitmap_overwrite(r, O), "overwrite succeeds"); ws_copy(e, &EO); break;
        case K_T_AND: q = roaring_bitmap_and(r, O); ws_comb(0, e, &EO, &ET); break;
        case K_T_OR: q = roaring_bitmap_or(r, O); ws_comb(1, e, &EO, &ET); break;
        case K_T_XOR: q = roaring_bitmap_xor(O, r); ws_comb(2, e, &EO, &ET); break;
        case K_T_ANDNOT: q = roaring_bitmap_andnot(r, O); ws_comb(3, e, &EO, &ET); break;
        case K_T_LAZY: q = roaring_bitmap_lazy_or(r, O, true); roaring_bitmap_lazy_or_inplace(q, sib, false); roaring_bitmap_repair_after_lazy(q); ws_comb(1, e, &EO, &tmp2); ws_comb(1, &tmp2, se, &ET); break;
        case K_T_MANY: case K_T_HEAP: { const roaring_bitmap_t *a[3] = {O, r, sib}; q = op == K_T_MANY ? roaring_bitmap_or_many(3, a) : roaring_bitmap_or_many_heap(3, a); ws_comb(1, e, &EO, &tmp2); ws_comb(1, &tmp2, se, &ET); break; }
        case K_T_XMANY: { const roaring_bitmap_t *a[3] = {r, O, sib}; q = roaring_bitmap_xor_many(3, a); ws_comb(2, e, &EO, &tmp2); ws_comb(2, &tmp2, se, &ET); break; }
        case K_T_FLIP: { uint16_t s = kval("s"), f = (uint16_t)(s + 3); ASSUME(s <= 65532); q = roaring_bitmap_flip_closed(r, base + s, base + f); ws_copy(&ET, e); flip_range_w(ws_mut(&ET, KEY), s, f); break; }
        case K_T_OFFSET: q = roaring_bitmap_add_offset(r, 3); ws_copy(&ET, e); break;
        case K_NOCOW: roaring_bitmap_set_copy_on_write(r, false); roaring_bitmap_set_copy_on_write(r, g_cow); break;
    }
    if (q) { /* the result is one more holder of whatever it shares */
        roaring_bitmap_set_copy_on_write(q, g_cow);
        if (op == K_T_OFFSET) roaring_bitmap_free(q);
        else {
            CHECK(rd_is(q, &ET), "a result built from copies holds the right elements");
            B[nB] = q; ws_copy(&E[nB], &ET); nB++;
        }
    }
}
static void k_all(const char *when) {
    (void)when;
    for (int i = 0; i < nB; i++) CHECK(rd_wf(B[i], false) & rd_is(B[i], &E[i]), "every copy holds exactly what its own history put there");
    CHECK(rd_wf(O, false) & rd_is(O, &EO), "an operand keeps its elements");
}
ENTRY(cow_kernel) { /* every shape: one or two operations on either copy, then the rest is freed */
    static const int few[3] = {S_A3, S_R2, S_B4097};
    int k = PICKN("case", (P("few", 0) ? 3 : N_SHAPES) * N_K * (P("op2", 0) ? N_K : 1) * 4);
    int cow = 1 - k % 2, t = k / 2 % 2, op = k / 4 % N_K, op2 = -1, s; k /= 4 * N_K;
    if (P("op2", 0)) { op2 = k % N_K; k /= N_K; }
    s = g_s = P("few", 0) ? few[k] : k;
    if (P("few", 0) && !P("full", 0)) ASSUME(cow);
    if (!cow && !P("full", 0)) ASSUME(op == K_ADD || op == K_FLIP || op == K_AND || op == K_SXOR || op == K_OPT || op == K_CLEAR);
    int spread = 0; g_cow = cow; (void)spread;
    B[0] = shape_bm(0, 0); ws_of(&g_m, &E[0]);
    roaring_bitmap_set_copy_on_write(B[0], cow);
    /* operand: two values by the window and a chunk of its own */
    O = roaring_bitmap_create(); roaring_bitmap_set_copy_on_write(O, cow); EO.n = 0;
    { uint16_t o = kval("o"); roaring_bitmap_add(O, (KEY << 16) + o); or_bit(ws_mut(&EO, KEY), o); roaring_bitmap_add(O, ((KEY - 2) << 16) + 11); w_set(ws_mut(&EO, KEY - 2), 11); roaring_bitmap_add(O, (KEY + 2) << 16); w_set(ws_mut(&EO, KEY + 2), 0); }
    if (t == 0 || s % 2) B[1] = roaring_bitmap_copy(B[0]);
    else { B[1] = roaring_bitmap_from_range(458000, 460000, 3); CHECK(roaring_bitmap_overwrite(B[1], B[0]), "overwrite succeeds"); }
    ws_copy(&E[1], &E[0]); nB = 2;
    k_op(op, t);
    k_all("after the operation");
    if (op2 >= 0 && nB < 3) { k_op(op2, 1 - t); k_all("after two operations"); }
    if (nB == 3 && (op2 < 0 || E[2].n)) { /* modify the third holder */
        uint16_t z = kval("z"); roaring_bitmap_add(B[2], (KEY << 16) + z); or_bit(ws_mut(&E[2], KEY), z);
        k_all("after modifying a result");
    }
    OBS("card", roaring_bitmap_get_cardinality(B[t]));
    int first = (s + op) % 2;
    roaring_bitmap_free(B[first]); nB--; 
    { roaring_bitmap_t *b = B[1 - first]; CHECK(rd_is(b, &E[1 - first]), "freeing one copy leaves the other"); roaring_bitmap_free(b); }
    if (nB == 2) { CHECK(rd_is(B[2], &E[2]), "freeing the copies leaves the result"); roaring_bitmap_free(B[2]); }
    CHECK(rd_is(O, &EO), "freeing the copies leaves the operand");
    roaring_bitmap_free(O);
}
