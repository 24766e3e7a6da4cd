#include "upd.c"
/* C22: two threads, each with its own bitmap; the bitmaps share containers copy-on-write. Which thread runs at every
 * synchronisation operation is a choice of the executor; a happens-before monitor that follows the memory orderings of the
 * atomics watches every other access. The expected contents come from the same operations on private bitmaps. */
enum { T_READ, T_ITER, T_STAT, T_ADD, T_REM, T_ADDM, T_REMM, T_BULK, T_ADDR, T_REMR, T_FLIP, T_OPT, T_UNRUN, T_SHRINK, T_CLEAR, T_COPY, T_COPYMOD, T_OVER, T_OVERINTO,
       T_AND, T_OR, T_XOR, T_ANDNOT, T_LOR, T_LXOR, T_PAND, T_POR, T_PXOR, T_PANDNOT, T_PLOR, T_MANY, T_HEAP, T_XMANY, T_PFLIP, T_OFF, T_SER, T_FREE, N_T };
typedef struct { roaring_bitmap_t *b, *o, *q; int op, fin, me; uint32_t y; uint64_t out; } thr_t;
static bool t_it(uint32_t v, void *p) { *(uint64_t *)p = *(uint64_t *)p * 31 + v; return true; }
static void *t_run(void *p) {
    thr_t *t = (thr_t *)p; roaring_bitmap_t *r = t->b, *o = t->o, *q = 0; uint32_t y = t->y, base = KEY << 16;
    bool cow = roaring_bitmap_get_copy_on_write(r);
    switch (t->op) {
        case T_READ: t->out = roaring_bitmap_contains(r, y) + 2 * roaring_bitmap_contains_range(r, y, y + 3) + 4 * roaring_bitmap_rank(r, y) + roaring_bitmap_maximum(r) + roaring_bitmap_minimum(r) + roaring_bitmap_get_cardinality(r); break;
        case T_ITER: roaring_iterate(r, t_it, &t->out); break;
        case T_STAT: { roaring_statistics_t s; roaring_bitmap_statistics(r, &s); const char *why; t->out = s.cardinality + s.n_containers + roaring_bitmap_internal_validate(r, &why) + roaring_bitmap_equals(r, o) + roaring_bitmap_intersect(r, o) + roaring_bitmap_is_subset(o, r) + roaring_bitmap_and_cardinality(r, o); break; }
        case T_ADD: roaring_bitmap_add(r, y); break;
        case T_REM: roaring_bitmap_remove(r, y); break;
        case T_ADDM: { uint32_t v[2] = {y, base + 65536 + 5}; roaring_bitmap_add_many(r, 2, v); break; }
        case T_REMM: { uint32_t v[2] = {y, base + 77}; roaring_bitmap_remove_many(r, 2, v); break; }
        case T_BULK: { roaring_bulk_context_t c; memset(&c, 0, sizeof c); t->out = roaring_bitmap_contains_bulk(r, &c, base + 1); roaring_bitmap_add_bulk(r, &c, y); roaring_bitmap_add_bulk(r, &c, base + 9); break; }
        case T_ADDR: roaring_bitmap_add_range(r, y, base + 65536 + 100); break;
        case T_REMR: roaring_bitmap_remove_range(r, y, base + 65536 + 100); break;
        case T_FLIP: roaring_bitmap_flip_inplace(r, y, base + 65536 + 100); break;
        case T_OPT: roaring_bitmap_run_optimize(r); break;
        case T_UNRUN: roaring_bitmap_remove_run_compression(r); break;
        case T_SHRINK: roaring_bitmap_shrink_to_fit(r); break;
        case T_CLEAR: roaring_bitmap_clear(r); break;
        case T_COPY: q = roaring_bitmap_copy(r); break;
        case T_COPYMOD: q = roaring_bitmap_copy(r); roaring_bitmap_add(r, y); roaring_bitmap_remove(q, y); break;
        case T_OVER: roaring_bitmap_overwrite(r, o); break;
        case T_OVERINTO: q = roaring_bitmap_from(3, 99); roaring_bitmap_set_copy_on_write(q, cow); roaring_bitmap_overwrite(q, r); roaring_bitmap_add(q, y); break;
        case T_AND: roaring_bitmap_and_inplace(r, o); break;
        case T_OR: roaring_bitmap_or_inplace(r, o); break;
        case T_XOR: roaring_bitmap_xor_inplace(r, o); break;
        case T_ANDNOT: roaring_bitmap_andnot_inplace(r, o); break;
        case T_LOR: roaring_bitmap_lazy_or_inplace(r, o, true); roaring_bitmap_repair_after_lazy(r); break;
        case T_LXOR: roaring_bitmap_lazy_xor_inplace(r, o); roaring_bitmap_repair_after_lazy(r); break;
        case T_PAND: q = roaring_bitmap_and(r, o); break;
        case T_POR: q = roaring_bitmap_or(r, o); break;
        case T_PXOR: q = roaring_bitmap_xor(o, r); break;
        case T_PANDNOT: q = roaring_bitmap_andnot(r, o); break;
        case T_PLOR: q = roaring_bitmap_lazy_or(r, o, false); roaring_bitmap_lazy_or_inplace(q, r, false); roaring_bitmap_repair_after_lazy(q); break;
        case T_MANY: { const roaring_bitmap_t *a[3] = {o, r, r}; q = roaring_bitmap_or_many(3, a); break; }
        case T_HEAP: { const roaring_bitmap_t *a[3] = {r, o, r}; q = roaring_bitmap_or_many_heap(3, a); break; }
        case T_XMANY: { const roaring_bitmap_t *a[3] = {r, o, r}; q = roaring_bitmap_xor_many(3, a); break; }
        case T_PFLIP: q = roaring_bitmap_flip(r, y, y + 4); break;
        case T_OFF: q = roaring_bitmap_add_offset(r, 131072); break;
        case T_SER: { size_t n = sym_concretize_(roaring_bitmap_portable_size_in_bytes(r)); static char bufs[2][40000]; char *buf = bufs[t->me]; if (n > 40000) break; roaring_bitmap_portable_serialize(r, buf); q = roaring_bitmap_portable_deserialize_safe(buf, n); roaring_bitmap_set_copy_on_write(q, cow); break; }
        case T_FREE: break;
    }
    if (q && q->high_low_container.size && t->fin == 2) roaring_bitmap_add(q, base + 4242); /* what was built from shared containers is modified in turn */
    t->q = q;
    if (t->fin == 1 || t->op == T_FREE) { roaring_bitmap_free(r); t->b = 0; }
    return 0;
}
static roaring_bitmap_t *t_chunk(roaring_bitmap_t *r, int s, uint32_t base) {
    switch (s) {
        case 0: for (uint32_t v = 0; v < 3; v++) roaring_bitmap_add(r, base + 5 + v * 1000); break;
        case 1: roaring_bitmap_add_range(r, base + 3, base + 200); roaring_bitmap_add_range(r, base + 5000, base + 5100); break;
        case 2: for (uint32_t v = 0; v < 4097; v++) roaring_bitmap_add(r, base + v * 3); break;
        case 3: roaring_bitmap_add_range(r, base, base + 65536); break;
        case 4: for (uint32_t v = 0; v < 4096; v++) roaring_bitmap_add(r, base + v * 2); break;
    }
    return r;
}
static roaring_bitmap_t *t_make(int s) {
    roaring_bitmap_t *r = roaring_bitmap_create();
    t_chunk(r, s, KEY << 16);
    t_chunk(r, (s + 1) % 2, (KEY + 1) << 16);
    return r;
}
static roaring_bitmap_t *t_opnd(int s) {
    roaring_bitmap_t *r = roaring_bitmap_create();
    roaring_bitmap_add(r, (KEY - 1) << 16 | 4); roaring_bitmap_add(r, (KEY << 16) + 5); roaring_bitmap_add_range(r, (KEY << 16) + 300, (KEY << 16) + 310);
    if (s % 2) roaring_bitmap_add_range(r, ((KEY + 1) << 16) + 3, ((KEY + 1) << 16) + 50), roaring_bitmap_run_optimize(r);
    return r;
}
static void t_same(const roaring_bitmap_t *r, const roaring_bitmap_t *ref) {
    const char *why = 0;
    CHECK(roaring_bitmap_internal_validate(r, &why), "each thread's bitmaps are valid");
    CHECK(roaring_bitmap_equals(r, ref), "each thread's bitmaps hold what its own operations put there");
}
static void t_case(int s, int op1, int op2, int fin, bool third) {
    thr_t t[2], ref[2]; roaring_bitmap_t *b3 = 0;
    uint32_t y = (KEY << 16) + SYM16("y", 4, 8);
    for (int i = 0; i < 2; i++) {
        memset(&ref[i], 0, sizeof ref[i]); ref[i].op = i ? op2 : op1; ref[i].y = y; ref[i].fin = fin == 1 ? 0 : fin;
        t[i] = ref[i]; t[i].fin = fin; t[i].me = i;
        ref[i].b = t_make(s); ref[i].o = t_opnd(s); t[i].o = t_opnd(s); roaring_bitmap_set_copy_on_write(t[i].o, true);
    }
    t[0].b = t_make(s); roaring_bitmap_set_copy_on_write(t[0].b, true);
    t[1].b = roaring_bitmap_copy(t[0].b);
    if (third) b3 = roaring_bitmap_copy(t[1].b);
    for (int i = 0; i < 2; i++) { bool fr = ref[i].op == T_FREE; if (fr) ref[i].op = T_READ; t_run(&ref[i]); if (fr) ref[i].out = 0; }
    unsigned a = sym_spawn_(t_run, &t[0]), b = sym_spawn_(t_run, &t[1]);
    sym_join_(a); sym_join_(b);
    for (int i = 0; i < 2; i++) {
        CHECK(t[i].out == ref[i].out, "each thread reads what its own bitmap holds");
        if (t[i].b) t_same(t[i].b, ref[i].b);
        CHECK((t[i].q != 0) == (ref[i].q != 0), "each thread's results are made");
        if (t[i].q) t_same(t[i].q, ref[i].q);
        OBS("out", t[i].out); OBS("card", t[i].b ? roaring_bitmap_get_cardinality(t[i].b) : 0);
        roaring_bitmap_t *x = t_opnd(s); t_same(t[i].o, x); roaring_bitmap_free(x);
    }
    if (b3) { roaring_bitmap_t *x = t_make(s); CHECK(roaring_bitmap_equals(b3, x), "a third copy is unchanged"); roaring_bitmap_free(x); }
    for (int i = 0; i < 2; i++) {
        if (t[i].b) roaring_bitmap_free(t[i].b);
        if (t[i].q) roaring_bitmap_free(t[i].q);
        roaring_bitmap_free(t[i].o); roaring_bitmap_free(ref[i].b); roaring_bitmap_free(ref[i].o); if (ref[i].q) roaring_bitmap_free(ref[i].q);
    }
    if (b3) roaring_bitmap_free(b3);
    OBS("y", y);
}
ENTRY(thr_kernel) {
    int c = PICKN("case", N_T * N_T * 5 * 3 * 2), op1 = DIG(c, N_T), op2 = DIG(c, N_T), s = DIG(c, 5), fin = DIG(c, 3), third = c;
    if (!P("full", 0)) ASSUME(s == (op1 * 3 + op2) % 5 && fin == (op1 + op2 / 5) % 3 && third == (op1 + op2) % 2 && op1 <= op2);
    t_case(s, op1, op2, fin, third);
}
