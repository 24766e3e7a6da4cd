#include "h.h"
/* Bitmaps of many chunks: key searches that gallop or bisect, header bit sets of more than one byte, growing key tables.
 * A chunk is one or two closed ranges; the model is the list of them. */
#define MAXC 72
typedef struct { int n; int kind[MAXC], nr[MAXC]; uint16_t key[MAXC], s[MAXC][2], e[MAXC][2]; } wm_t;
static uint32_t wc_card(const wm_t *m, int i) { uint32_t n = 0; for (int k = 0; k < m->nr[i]; k++) n += (uint32_t)m->e[i][k] - m->s[i][k] + 1; return n; }
static bool wc_has(const wm_t *m, int i, uint16_t x) { bool h = false; for (int k = 0; k < m->nr[i]; k++) h |= (bool)((x >= m->s[i][k]) & (x <= m->e[i][k])); return h; }
static bool wm_has(const wm_t *m, uint32_t x) { bool h = false; for (int i = 0; i < m->n; i++) h |= (bool)((m->key[i] == (uint16_t)(x >> 16)) & wc_has(m, i, (uint16_t)x)); return h; }
static uint64_t wm_card(const wm_t *m) { uint64_t n = 0; for (int i = 0; i < m->n; i++) n += wc_card(m, i); return n; }
static uint64_t wm_rank(const wm_t *m, uint32_t x) { /* elements <= x */
    uint64_t n = 0; uint16_t h = x >> 16, l = (uint16_t)x;
    for (int i = 0; i < m->n; i++) for (int k = 0; k < m->nr[i]; k++) {
        uint32_t s = m->s[i][k], e = m->e[i][k], t = l < e ? l : e;
        n += m->key[i] < h ? e - s + 1 : m->key[i] == h && l >= s ? t - s + 1 : 0;
    }
    return n;
}
static roaring_bitmap_t *wm_build(const wm_t *m) {
    roaring_bitmap_t *r = roaring_bitmap_create();
    for (int i = 0; i < m->n; i++) {
        container_t *c;
        if (m->kind[i] == AR) {
            array_container_t *a = array_container_create_given_capacity(4); int n = 0;
            for (int k = 0; k < m->nr[i]; k++) if (m->s[i][k] == m->e[i][k]) a->array[n++] = m->s[i][k]; else { a->array[n++] = m->s[i][k]; a->array[n++] = m->e[i][k]; }
            a->cardinality = n; c = a;
        } else if (m->kind[i] == RN) {
            run_container_t *q = run_container_create_given_capacity(2);
            for (int k = 0; k < m->nr[i]; k++) { q->runs[k].value = m->s[i][k]; q->runs[k].length = (uint16_t)(m->e[i][k] - m->s[i][k]); }
            q->n_runs = m->nr[i]; c = q;
        } else {
            bitset_container_t *b = bitset_container_create();
            for (int k = 0; k < m->nr[i]; k++) w_range(b->words, m->s[i][k], m->e[i][k]);
            b->cardinality = (int32_t)wc_card(m, i); c = b;
        }
        ra_append(&r->high_low_container, m->key[i], c, (uint8_t)m->kind[i]);
    }
    return r;
}
static uint16_t w_key(int pat, int n, int i) { return (uint16_t)(pat == 0 ? i : pat == 1 ? 65535 - 3 * (n - 1 - i) : 40000 + i * i); }
/* the content of one chunk: an array of one value, a run, an array of two adjacent values */
static void w_chunk(wm_t *m, int i, int kind) {
    m->kind[i] = kind == 1 ? RN : kind == 3 ? BS : AR; m->nr[i] = 1;
    m->s[i][0] = kind == 0 ? (uint16_t)(i * 977 + 5) : kind == 3 ? 100 : (uint16_t)(i * 31 + 60);
    m->e[i][0] = kind == 0 ? m->s[i][0] : kind == 1 ? (uint16_t)(m->s[i][0] + 2 + i) : kind == 3 ? 60000 : (uint16_t)(m->s[i][0] + 1);
}
static void w_fill(wm_t *m, int n, int pat, int lay) {
    m->n = n;
    for (int i = 0; i < n; i++) { m->key[i] = w_key(pat, n, i); w_chunk(m, i, lay == 2 ? 0 : (i + lay) % 3); }
}
/* a 16-bit key in or next to the keys of the pattern */
static uint16_t w_symkey(int pat, int n, const char *nm) { uint32_t lo = pat == 0 ? 0 : w_key(pat, n, 0) - 1u, hi = w_key(pat, n, n - 1) + 1u; return SYM16(nm, lo, hi > 65535 ? 65535 : hi); }
static const int NS[3] = {5, 12, 33};
static wm_t A, B;
/* the other operand: one or two chunks with solver-chosen keys, one value or a full run each */
static void w_small(wm_t *m, int pat, int n, int nb) {
    m->n = nb;
    for (int i = 0; i < nb; i++) { m->key[i] = w_symkey(pat, n, "key"); m->nr[i] = 1; m->kind[i] = AR; m->s[i][0] = m->e[i][0] = SYM16("v", 0, 65535); }
    if (nb == 2) { ASSUME(m->key[0] < m->key[1]); m->kind[1] = RN; m->s[1][0] = 0; m->e[1][0] = 65535; }
    if (nb == 2 && n == 33) ASSUME(m->key[0] <= w_key(pat, n, 1));
}
static void wide_pair(int c, roaring_bitmap_t **a, roaring_bitmap_t **b) {
    int n = NS[DIG(c, 3)], pat = DIG(c, 3), nb = 1 + DIG(c, 2), lay = c;
    w_fill(&A, n, pat, lay); w_small(&B, pat, n, nb);
    *a = wm_build(&A); *b = wm_build(&B);
}
static bool opb(int op, bool x, bool y) { return op == 0 ? x & y : op == 1 ? x | y : op == 2 ? x ^ y : x & !y; }
ENTRY(wide_alg) {
    int c = PICKN("case", 8 * 36 * (P("inplace", 2) == 2 ? 2 : 1)), op = DIG(c, 4), swap = DIG(c, 2), inplace = P("inplace", 2) == 2 ? DIG(c, 2) : P("inplace", 2);
    roaring_bitmap_t *a, *b, *r; wide_pair(c, &a, &b);
    roaring_bitmap_t *p = swap ? b : a, *q = swap ? a : b; const wm_t *mp = swap ? &B : &A, *mq = swap ? &A : &B;
    uint32_t x = SYM32("x", 0, UINT32_MAX);
    if (!inplace) r = op == 0 ? roaring_bitmap_and(p, q) : op == 1 ? roaring_bitmap_or(p, q) : op == 2 ? roaring_bitmap_xor(p, q) : roaring_bitmap_andnot(p, q);
    else { r = p; if (op == 0) roaring_bitmap_and_inplace(p, q); else if (op == 1) roaring_bitmap_or_inplace(p, q); else if (op == 2) roaring_bitmap_xor_inplace(p, q); else roaring_bitmap_andnot_inplace(p, q); }
    OBS("card", roaring_bitmap_get_cardinality(r));
    if (P("valid", 0)) CHECK_VALID(r, "result");
    else {
        CHECK_OK(r, "result");
        CHECK(rd_has(r, x) == opb(op, wm_has(mp, x), wm_has(mq, x)), "the result has exactly the elements of the set operation");
        CHECK(rd_has(q, x) == wm_has(mq, x), "the right operand is unchanged");
        if (!inplace) CHECK(rd_has(p, x) == wm_has(mp, x), "the left operand is unchanged");
    }
    if (!inplace) roaring_bitmap_free(r);
    roaring_bitmap_free(a); roaring_bitmap_free(b);
}
ENTRY(wide_query) {
    int c = PICKN("case", 36), pad = P("lazy", 0); (void)pad;
    roaring_bitmap_t *a, *b; wide_pair(c, &a, &b);
    uint64_t na = wm_card(&A), nb = wm_card(&B), ni = 0;
    for (int i = 0; i < A.n; i++) for (int j = 0; j < B.n; j++) {
        uint32_t s = A.s[i][0] > B.s[j][0] ? A.s[i][0] : B.s[j][0], e = A.e[i][0] < B.e[j][0] ? A.e[i][0] : B.e[j][0], k = s <= e ? e - s + 1 : 0;
        ni += A.key[i] == B.key[j] ? k : 0;
    }
    CHECK(roaring_bitmap_and_cardinality(a, b) == ni, "and_cardinality is the size of the intersection");
    CHECK(roaring_bitmap_and_cardinality(b, a) == ni, "and_cardinality is symmetric");
    CHECK(roaring_bitmap_or_cardinality(a, b) == na + nb - ni, "or_cardinality is the size of the union");
    CHECK(roaring_bitmap_xor_cardinality(a, b) == na + nb - 2 * ni, "xor_cardinality is the size of the symmetric difference");
    CHECK(roaring_bitmap_andnot_cardinality(a, b) == na - ni, "andnot_cardinality is the size of the difference");
    CHECK(roaring_bitmap_andnot_cardinality(b, a) == nb - ni, "andnot_cardinality is the size of the difference (swapped)");
    CHECK((roaring_bitmap_intersect(a, b) == (ni != 0)) & (roaring_bitmap_intersect(b, a) == (ni != 0)), "intersect is true exactly when the intersection is not empty");
    CHECK((roaring_bitmap_is_subset(a, b) == (ni == na)) & (roaring_bitmap_is_subset(b, a) == (ni == nb)), "is_subset is inclusion");
    CHECK(roaring_bitmap_equals(a, b) == ((ni == na) & (ni == nb)), "equals is set equality");
    roaring_bitmap_free(a); roaring_bitmap_free(b);
}
static uint32_t w_symval(int pat, int n, const char *nm) { uint32_t k = w_symkey(pat, n, nm); return k << 16 | SYM16(nm, 0, 65535); }
ENTRY(wide_point) { /* updates and look-ups of values with any key in or next to the keys */
    int c = PICKN("case", 9 * 9), n = NS[DIG(c, 3)], pat = DIG(c, 3), op = c;
    w_fill(&A, n, pat, 0);
    roaring_bitmap_t *r = wm_build(&A);
    uint32_t v = w_symval(pat, n, "v"), u = w_key(pat, n, n / 2) << 16 | SYM16("u", 0, 65535), x = SYM32("x", 0, UINT32_MAX);
    bool hv = wm_has(&A, v), hu = wm_has(&A, u), want = wm_has(&A, x);
    roaring_bulk_context_t ctx = CROARING_ZERO_INITIALIZER;
    switch (op) {
        case 0: CHECK(roaring_bitmap_contains(r, v) == hv, "contains is membership"); break;
        case 1: CHECK(roaring_bitmap_add_checked(r, v) == !hv, "add_checked reports a new value"); want |= x == v; break;
        case 2: CHECK(roaring_bitmap_remove_checked(r, v) == hv, "remove_checked reports a removed value"); want &= x != v; break;
        case 3: roaring_bitmap_add_bulk(r, &ctx, u); roaring_bitmap_add_bulk(r, &ctx, v); roaring_bitmap_add_bulk(r, &ctx, u); want |= (bool)((x == v) | (x == u)); break;
        case 4: CHECK(roaring_bitmap_contains_bulk(r, &ctx, u) == hu, "contains_bulk is membership"); CHECK(roaring_bitmap_contains_bulk(r, &ctx, v) == hv, "contains_bulk is membership (second)"); CHECK(roaring_bitmap_contains_bulk(r, &ctx, u) == hu, "contains_bulk is membership (third)"); break;
        case 5: { uint32_t q[3] = {v, u, v}; roaring_bitmap_add_many(r, 3, q); want |= (bool)((x == v) | (x == u)); break; }
        case 6: { uint32_t q[3] = {u, v, u}; roaring_bitmap_remove_many(r, 3, q); want &= (bool)((x != v) & (x != u)); break; }
        case 7: { uint64_t k = roaring_bitmap_rank(r, v); CHECK(k == wm_rank(&A, v), "rank counts the elements up to the value"); CHECK(roaring_bitmap_get_index(r, v) == (hv ? (int64_t)k - 1 : -1), "get_index is the position of an element");
            uint32_t e = 0; uint32_t card = (uint32_t)wm_card(&A), pos = SYM32("pos", 0, card + 1); bool ok = roaring_bitmap_select(r, pos, &e);
            CHECK(ok == (pos < card), "select succeeds below the cardinality"); if (ok) CHECK(wm_has(&A, e) & (wm_rank(&A, e) == (uint64_t)pos + 1), "select gives the element at the position"); break; }
        default: { uint32_t lo = u < v ? u : v, hi = u < v ? v : u, q[2] = {lo, hi}; uint64_t got[2]; roaring_bitmap_rank_many(r, q, q + 2, got); CHECK((got[0] == wm_rank(&A, lo)) & (got[1] == wm_rank(&A, hi)), "rank_many counts the elements up to each value"); break; }
    }
    CHECK(rd_wf(r, false), "stored chunks are sorted, exact and non-empty");
    CHECK(rd_has(r, x) == want, "exactly the intended values are stored");
    roaring_bitmap_free(r);
}
static uint16_t w_near(const char *nm, int i) { uint32_t s = A.s[i][0], e = A.e[i][0]; return SYM16(nm, s < 50 ? 0 : s - 50, e + 50 > 65535 ? 65535 : e + 50); }
ENTRY(wide_range) { /* ranges over many chunks */
    int c = PICKN("case", 9 * 6), n = NS[DIG(c, 3)], pat = DIG(c, 3), op = c;
    if (n == 33) n = P("n", 20);
    w_fill(&A, n, pat, 1);
    roaring_bitmap_t *r = wm_build(&A), *q;
    /* the chunks of the two ends: on, next to, and between the keys */
    uint32_t i0 = PICK("i0", P("starts", 2)), i1 = PICK("i1", P("ends", 2)), d0 = PICK("d0", 2), d1 = PICK("d1", 2);
    uint32_t ka = w_key(pat, n, (int[]){0, n / 3, n / 2}[i0]) - (pat && d0), kb = w_key(pat, n, (int[]){n - 1, n / 2, n / 2 + 1, n - 2}[i1]);
    if (kb < 65535) kb += d1; else ASSUME(d1 == 0);
    if (pat == 0) ASSUME(d0 == 0);
    ASSUME(ka < kb);
    uint64_t lo = (uint64_t)ka << 16 | w_near("la", (int[]){0, n / 3, n / 2}[i0]), hi = (uint64_t)kb << 16 | w_near("lb", (int[]){n - 1, n / 2, n / 2 + 1, n - 2}[i1]); /* closed */
    uint32_t x = SYM32("x", 0, UINT32_MAX);
    bool in = (x >= lo) & (x <= hi), has = wm_has(&A, x), want = has;
    uint64_t cnt = 0;
    for (int i = 0; i < A.n; i++) { uint32_t key = A.key[i], s = A.s[i][0], e = A.e[i][0]; if (key < ka || key > kb) continue;
        if (key == ka && s < (uint16_t)lo) s = (uint16_t)lo; if (key == kb && e > (uint16_t)hi) e = (uint16_t)hi; cnt += s <= e ? e - s + 1 : 0; }
    if (op == 0) { roaring_bitmap_add_range(r, lo, hi + 1); want |= in; }
    else if (op == 1) { roaring_bitmap_remove_range(r, lo, hi + 1); want &= !in; }
    else if (op == 2) { roaring_bitmap_flip_inplace(r, lo, hi + 1); want ^= in; }
    else if (op == 3) { q = roaring_bitmap_flip(r, lo, hi + 1); CHECK(rd_wf(q, false), "flip: stored chunks are sorted, exact and non-empty"); CHECK(rd_has(q, x) == (has ^ in), "flip complements exactly the range"); roaring_bitmap_free(q); }
    else if (op == 4) { CHECK(roaring_bitmap_range_cardinality(r, lo, hi + 1) == cnt, "range_cardinality counts the elements of the range"); CHECK(roaring_bitmap_contains_range(r, lo, hi + 1) == (cnt == hi - lo + 1), "contains_range is inclusion of the range"); }
    else { CHECK(roaring_bitmap_intersect_with_range(r, lo, hi + 1) == (cnt != 0), "intersect_with_range is non-emptiness of the part in the range"); }
    CHECK(rd_wf(r, false), "stored chunks are sorted, exact and non-empty");
    CHECK(rd_has(r, x) == want, "exactly the intended values are stored");
    roaring_bitmap_free(r);
}
ENTRY(wide_iter) { /* seeking forwards and backwards over many chunks */
    int c = PICKN("case", 9 * 8), n = NS[DIG(c, 3)], pat = DIG(c, 3), how = DIG(c, 2), op = c;
    w_fill(&A, n, pat, 0);
    uint64_t card = wm_card(&A), p = 1;
    roaring_bitmap_t *r = wm_build(&A);
    roaring_uint32_iterator_t it;
    if (how) { roaring_iterator_init_last(r, &it); p = card; } else roaring_iterator_init(r, &it);
    for (int step = 0; step < 2; step++) {
        if (step == 0 || op == 0) { uint32_t y = w_symval(pat, n, "y"); bool ok = roaring_uint32_iterator_move_equalorlarger(&it, y); p = wm_rank(&A, y) + !wm_has(&A, y); CHECK(ok == (p <= card), "move_equalorlarger tells whether there is such an element"); }
        else if (op == 1) { roaring_uint32_iterator_advance(&it); p += p <= card; }
        else if (op == 2) { roaring_uint32_iterator_previous(&it); p--; }
        else {
            uint32_t buf[24]; uint64_t left = card + 1 - p, got = roaring_uint32_iterator_read(&it, buf, 24);
            CHECK(got == (left < 24 ? left : 24), "read returns as many elements as there are, at most count");
            for (uint32_t i = 0; i < 24; i++) if (i < got) CHECK(wm_has(&A, buf[i]) & (wm_rank(&A, buf[i]) == p + i), "read lists the elements from the current one");
            p += got;
        }
        bool on = (p >= 1) & (p <= card);
        CHECK(it.has_value == on, "has_value is true exactly while the iterator is on an element");
        if (on) CHECK(wm_has(&A, it.current_value) & (wm_rank(&A, it.current_value) == p), "current_value is the element at the iterator's position");
    }
    roaring_bitmap_free(r);
}
/* serialization: which chunks are runs is varied one by one */
static void wb_same(const roaring_bitmap_t *r, const roaring_bitmap_t *q, const wm_t *m, uint32_t x) {
    CHECK(q != 0, "what was written is accepted");
    CHECK(rd_wf(q, false), "the reproduced bitmap is well formed");
    CHECK((rd_card(q) == wm_card(m)) & (rd_has(q, x) == wm_has(m, x)), "the reproduced bitmap has exactly the same elements");
    CHECK(roaring_bitmap_equals(r, q) & roaring_bitmap_equals(q, r), "the reproduced bitmap equals the original");
}
/* the published portable image of the model */
static void p16(uint8_t **p, uint32_t v) { *(*p)++ = (uint8_t)v; *(*p)++ = (uint8_t)(v >> 8); }
static void p32(uint8_t **p, uint32_t v) { p16(p, v); p16(p, v >> 16); }
static size_t wc_bytes(const wm_t *m, int i) { return m->kind[i] == RN ? 2 + 4 * (size_t)m->nr[i] : m->kind[i] == BS ? 8192 : 2 * (size_t)wc_card(m, i); }
static size_t spec_write(const wm_t *m, uint8_t *buf) {
    uint8_t *p = buf; bool run = false; uint32_t off;
    for (int i = 0; i < m->n; i++) run |= m->kind[i] == RN;
    if (run) { p32(&p, 12347u | (uint32_t)(m->n - 1) << 16); for (int i = 0; i < m->n; i += 8) { uint8_t f = 0; for (int k = 0; k < 8 && i + k < m->n; k++) f |= (m->kind[i + k] == RN) << k; *p++ = f; } }
    else { p32(&p, 12346); p32(&p, (uint32_t)m->n); }
    for (int i = 0; i < m->n; i++) { p16(&p, m->key[i]); p16(&p, wc_card(m, i) - 1); }
    if (!run || m->n >= 4) { off = (uint32_t)(p - buf) + 4u * m->n; for (int i = 0; i < m->n; i++) { p32(&p, off); off += (uint32_t)wc_bytes(m, i); } }
    for (int i = 0; i < m->n; i++) {
        if (m->kind[i] == RN) { p16(&p, m->nr[i]); for (int k = 0; k < m->nr[i]; k++) { p16(&p, m->s[i][k]); p16(&p, m->e[i][k] - m->s[i][k]); } }
        else if (m->kind[i] == AR) for (int k = 0; k < m->nr[i]; k++) { p16(&p, m->s[i][k]); if (m->e[i][k] != m->s[i][k]) p16(&p, m->e[i][k]); }
        else { memset(p, 0, 8192); for (int k = 0; k < m->nr[i]; k++) for (uint32_t v = m->s[i][k]; v <= m->e[i][k]; v++) p[v >> 3] |= (uint8_t)(1 << (v & 7)); p += 8192; }
    }
    return (size_t)(p - buf);
}
static void w_ser_model(int n, int form, int hot) { /* form 0: only chunk hot is a run, 1: all but hot, 2: only hot is a bitset, among runs and arrays; hot == n: none */
    A.n = n;
    for (int i = 0; i < n; i++) {
        A.key[i] = w_key(i & 1, n, i); A.key[i] = (uint16_t)(i < n / 2 ? 5 * i : 65535 - (n - 1 - i));
        w_chunk(&A, i, form == 0 ? (i == hot ? 1 : i % 2 * 2) : form == 1 ? (i == hot ? 0 : 1) : (i == hot ? 3 : i % 3));
        if (i != hot || form == 2) continue;
        uint16_t v = SYM16("v", 0, 65000); A.s[i][0] = A.e[i][0] = v; if (A.kind[i] == RN) A.e[i][0] = (uint16_t)(v + SYM16("l", 2, 500));
    }
}
static const int SN[6] = {3, 4, 8, 9, 16, 17};
ENTRY(wide_ser) {
    int c = PICKN("case", 6 * 3 * (P("part", 4) == 4 ? 4 : 1)), n = SN[DIG(c, 6)], form = DIG(c, 3), part = P("part", 4) == 4 ? c : P("part", 4), hot = PICK("hot", n + 1);
    w_ser_model(n, form, hot);
    uint32_t x = SYM32("x", 0, UINT32_MAX);
    roaring_bitmap_t *r = wm_build(&A), *q;
    size_t size = roaring_bitmap_portable_size_in_bytes(r);
    char *buf = (char *)malloc(size);
    CHECK(roaring_bitmap_portable_serialize(r, buf) == size, "portable_serialize writes exactly portable_size_in_bytes bytes");
    if (part == 0) {
        static uint8_t want[16384]; bool same = true; size_t k = spec_write(&A, want);
        CHECK(k == size, "the portable form has the published size");
        for (size_t i = 0; i < k; i++) same &= want[i] == (uint8_t)buf[i];
        CHECK(same, "the portable form is the published one");
        CHECK(roaring_bitmap_portable_deserialize_size(buf, size) == size, "portable_deserialize_size gives the size written");
        CHECK(roaring_bitmap_portable_deserialize_size(buf, size - 1) == 0, "portable_deserialize_size refuses a truncated buffer");
    } else if (part == 1) {
        q = roaring_bitmap_portable_deserialize_safe(buf, size); wb_same(r, q, &A, x); roaring_bitmap_free(q);
        q = roaring_bitmap_portable_deserialize_frozen(buf); wb_same(r, q, &A, x); roaring_bitmap_free(q);
    } else if (part == 2) {
        size_t ns = roaring_bitmap_size_in_bytes(r); char *nat = (char *)malloc(ns);
        CHECK(roaring_bitmap_serialize(r, nat) == ns, "serialize writes exactly size_in_bytes bytes");
        q = roaring_bitmap_deserialize_safe(nat, ns); wb_same(r, q, &A, x); roaring_bitmap_free(q); free(nat);
    } else {
        size_t fs = roaring_bitmap_frozen_size_in_bytes(r); char *fz = (char *)roaring_aligned_malloc(32, (fs + 31) / 32 * 32);
        roaring_bitmap_frozen_serialize(r, fz);
        const roaring_bitmap_t *v = roaring_bitmap_frozen_view(fz, fs); wb_same(r, v, &A, x);
        q = roaring_bitmap_copy(v); wb_same(r, q, &A, x); roaring_bitmap_free(q);
        roaring_bitmap_free(v); roaring_aligned_free(fz);
    }
    free(buf); roaring_bitmap_free(r);
}
/* many operands, of different sizes */
ENTRY(wide_many) {
    int c = PICKN("case", 3 * 4 * 3 * 2), form = DIG(c, 3), nb = 4 + DIG(c, 4) * 2, lay = DIG(c, 3); bool cow = c;
    static wm_t m[10]; roaring_bitmap_t *b[10]; const roaring_bitmap_t *cb[10];
    for (int i = 0; i < nb; i++) {
        if (cow) w_fill(&m[i], 2 + (i & 1) + lay % 2, i & 2 ? 2 : lay == 2 && i == 1 ? 2 : 0, i % 3); else
        w_fill(&m[i], 1 + (i * 5 + lay) % 4, (i + lay) % 3 == 1 ? 2 : (i + lay) % 3, i % 3);
        if (i == lay || i == nb - 1) { m[i].kind[0] = AR; m[i].nr[0] = 1; m[i].s[0][0] = m[i].e[0][0] = SYM16("v", 960, 1087); }
        if (i == 2 + lay && !(cow && nb == 4)) w_chunk(&m[i], 0, 3);
        cb[i] = b[i] = wm_build(&m[i]); if (cow) roaring_bitmap_set_copy_on_write(b[i], true);
    }
    roaring_bitmap_t *r = form == 0 ? roaring_bitmap_or_many((size_t)nb, cb) : form == 1 ? roaring_bitmap_or_many_heap((uint32_t)nb, cb) : roaring_bitmap_xor_many((size_t)nb, cb);
    OBS("card", roaring_bitmap_get_cardinality(r));
    uint32_t x = SYM32("x", 0, UINT32_MAX); bool want = false, same = true;
    for (int i = 0; i < nb; i++) { bool h = wm_has(&m[i], x); want = form == 2 ? want ^ h : want | h; same &= rd_has(b[i], x) == h; }
    CHECK_OK(r, "many-way result");
    CHECK(rd_has(r, x) == want, "many-way result contains exactly the combined elements");
    CHECK(same, "inputs of many-way operations unchanged");
    roaring_bitmap_free(r); for (int i = 0; i < nb; i++) roaring_bitmap_free(b[i]);
}
/* key tables that grow: chunks appended one after the other, an update at a solver-chosen place */
ENTRY(wide_grow) {
    int c = PICKN("case", 4 * 2 * 3), n = (int[]){4, 9, 17, 66}[DIG(c, 4)], back = DIG(c, 2), form = c;
    roaring_bitmap_t *r = roaring_bitmap_create();
    wm_t *m = &A; m->n = n;
    for (int i = 0; i < n; i++) { m->key[i] = (uint16_t)(2 * i + 1); w_chunk(m, i, i % 3); }
    for (int k = 0; k < n; k++) { int i = back ? n - 1 - k : k; for (uint32_t v = m->s[i][0]; v <= m->e[i][0]; v += v < m->e[i][0] && m->kind[i] == RN && 0 ? 1 : 1) roaring_bitmap_add(r, (uint32_t)m->key[i] << 16 | v); }
    uint32_t v = (uint32_t)SYM16("k", 0, 2 * (uint32_t)n) << 16 | SYM16("v", 0, 65535), x = SYM32("x", 0, UINT32_MAX); bool want = wm_has(m, x);
    if (form == 0) { roaring_bitmap_add(r, v); want |= x == v; }
    else if (form == 1) { roaring_bitmap_remove(r, v); want &= x != v; }
    else { roaring_bitmap_t *q = roaring_bitmap_copy(r); roaring_bitmap_add(q, v); roaring_bitmap_or_inplace(r, q); want |= x == v; CHECK(rd_has(q, x) == want, "the copy has the elements and the added one"); roaring_bitmap_free(q); }
    CHECK(rd_wf(r, false), "stored chunks are sorted, exact and non-empty");
    CHECK(rd_has(r, x) == want, "exactly the intended values are stored");
    roaring_bitmap_free(r);
}
/* run chunks at and beyond the number of runs where another form is smaller; both ends of the range in small windows */
static uint16_t mr_run(int i) { return (uint16_t)(31 * i + 40); }
ENTRY(many_runs) {
    int c = PICKN("case", 4 * 6 * 6), n = (int[]){2046, 2047, 2048, 2100}[DIG(c, 4)], w = DIG(c, 6), op = c, w0 = w < 3 ? w : w == 3 ? 0 : w == 4 ? 1 : 0, w1 = w < 3 ? w : w == 5 ? 1 : 2;
    bool last = PICK("last", 2);
    static const uint32_t wlo[3] = {70, 31 * 1003 + 37, 65535 - 12}; uint32_t wn = (uint32_t)P("win", 12);
    roaring_bitmap_t *r = roaring_bitmap_create(), *q;
    run_container_t *rc = run_container_create_given_capacity(n + 1);
    for (int i = 0; i < n; i++) { rc->runs[i].value = mr_run(i); rc->runs[i].length = (uint16_t)(i % 4); } rc->n_runs = n;
    if (last) { rc->runs[n].value = 65525; rc->runs[n].length = 10; rc->n_runs++; }
    ra_append(&r->high_low_container, 7, rc, RN);
    uint32_t lo = wlo[w0] + SYM8("lo", 0, wn), hi = wlo[w1] + SYM8("hi", 0, wn), xw = PICK("xw", 3), x = wlo[xw] + SYM8("x", 0, wn);
    if (w0 == w1) ASSUME(lo <= hi); ASSUME((hi <= 65535) & (x <= 65535));
    bool has = last & (x >= 65525), in = (x >= lo) & (x <= hi);
    for (int i = (int[]){0, 1000, 2090}[xw], k = 0; k < 10; k++, i++) if (i < n) has |= (x >= mr_run(i)) & (x <= mr_run(i) + i % 4u);
    uint64_t g = 7 << 16, n0 = roaring_bitmap_get_cardinality(r), cnt = roaring_bitmap_range_cardinality(r, g + lo, g + hi + 1), y = g + x;
    if (op == 0) { roaring_bitmap_add_range(r, g + lo, g + hi + 1); has |= in; n0 += hi - lo + 1 - cnt; }
    else if (op == 1) { roaring_bitmap_remove_range(r, g + lo, g + hi + 1); has &= !in; n0 -= cnt; }
    else if (op == 2) { roaring_bitmap_flip_inplace(r, g + lo, g + hi + 1); has ^= in; n0 += hi - lo + 1 - 2 * cnt; }
    else if (op == 3) { q = roaring_bitmap_flip(r, g + lo, g + hi + 1); roaring_bitmap_free(r); r = q; has ^= in; n0 += hi - lo + 1 - 2 * cnt; }
    else if (op == 4) { roaring_bitmap_add(r, (uint32_t)(g + lo)); has |= x == lo; roaring_bitmap_remove(r, (uint32_t)(g + hi)); has &= x != hi; n0 = sym_concretize_(rd_card(r)); }
    else { roaring_bitmap_remove_run_compression(r); roaring_bitmap_add_range(r, g + lo, g + hi + 1); has |= in; n0 += hi - lo + 1 - cnt; roaring_bitmap_run_optimize(r); }
    CHECK(rd_wf(r, false), "stored chunks are sorted, exact and non-empty");
    CHECK(roaring_bitmap_get_cardinality(r) == n0, "the number of elements changes by exactly those added or removed");
    CHECK(roaring_bitmap_contains(r, (uint32_t)y) == has, "exactly the intended values are stored");
    roaring_bitmap_free(r);
}
