#include "h.h"
#include <roaring/bitset/bitset.h>
/* C21: the plain bitset against an array of words */
enum { NW = 16 };
typedef struct { uint64_t w[NW + 1]; int n; } bm;
static bitset_t *b_build(bm *m, int n, int slack, const char *nm) { /* n words chosen by the solver; slack: spare words behind them hold garbage */
    memset(m, 0, sizeof *m); m->n = n;
    bitset_t *b = slack == 2 ? bitset_create_with_capacity((size_t)n * 64 - (n > 0 ? 3 : 0)) : bitset_create();
    if (slack == 1) { bitset_resize(b, (size_t)n + 3, false); if (b->array) memset(b->array, 0xa5, 8 * ((size_t)n + 3)); bitset_resize(b, (size_t)n, true); }
    else if (slack == 0) bitset_grow(b, (size_t)n);
    CHECK((b->arraysize == (size_t)n) & (bitset_size_in_words(b) == (size_t)n) & (bitset_size_in_bits(b) == 64 * (size_t)n) & (bitset_size_in_bytes(b) == 8 * (size_t)n), "the bitset has the size asked for");
    for (int i = 0; i < n; i++) { if (slack != 1) CHECK(b->array[i] == 0, "a new bitset has no bits"); b->array[i] = m->w[i] = SYM64(nm, 0, UINT64_MAX); }
    return b;
}
static void b_is(const bitset_t *b, const bm *m) {
    size_t n = sym_concretize_(b->arraysize); uint64_t d = 0;
    CHECK((b->arraysize <= b->capacity) & (n <= NW), "the size fits the storage");
    for (size_t i = 0; i < NW; i++) d |= (i < n ? b->array[i] : 0) ^ m->w[i];
    CHECK(d == 0, "the bitset has exactly the bits of the result");
}
static bool mb(const bm *m, uint64_t i) { return i / 64 < NW && (m->w[i / 64] >> (i % 64) & 1); }
static uint64_t mcount(const uint64_t *w) { uint64_t n = 0; for (int i = 0; i < NW; i++) n += (uint64_t)popc(w[i]); return n; }
static bm A, B;
static size_t vprev, vn, vstop; static bool vok;
static bool visit(size_t v, void *p) { vok &= (p == (void *)&A) & mb(&A, v) & (vn == 0 || v > vprev); vprev = v; vn++; return vn != vstop; }
static void thin(bitset_t *b, bm *m) { for (int i = 0; i < m->n; i++) { static const uint64_t mask[] = {0x8000000000000001ull, 0x10ull, 0, 0x8000000000000000ull, 3ull}; m->w[i] &= mask[i % 5]; b->array[i] = m->w[i]; } }
ENTRY(bits_one) {
    int maxn = P("maxn", 5), c = PICKN("case", (maxn + 1) * 3 * 15), n = c % (maxn + 1), slack = c / (maxn + 1) % 3, op = c / (maxn + 1) / 3;
    bitset_t *b = b_build(&A, n, slack, "w"), *q = 0;
    switch (op) {
        case 0: case 1: case 2: {
            uint64_t i = SYM64("i", 0, UINT64_MAX); ASSUME((i < 640) | (i >= (uint64_t)1 << 40)); bool f = true;
            if (op == 0) bitset_set(b, i);
            else if (op == 1) { f = SYM8("f", 0, 1); bitset_set_to_value(b, i, f); }
            else { CHECK(bitset_get(b, i) == mb(&A, i), "get tells whether the bit is set"); break; }
            if (i < 640) { uint64_t one = (uint64_t)1 << (i % 64); int k = (int)sym_concretize_(i / 64); A.w[k] = f ? A.w[k] | one : A.w[k] & ~one; CHECK(bitset_get(b, i) == f, "the bit has its new value"); }
            break; }
        case 3: bitset_clear(b); memset(A.w, 0, sizeof A.w); CHECK(bitset_empty(b), "clear leaves no bits"); break;
        case 4: bitset_fill(b); for (int i = 0; i < n; i++) A.w[i] = ~0ull; break;
        case 5: q = bitset_copy(b); B = A; CHECK((q->arraysize == b->arraysize) & (q->array != b->array || n == 0), "copy has its own storage"); b_is(q, &B);
            bitset_set(b, 70); A.w[1] |= 64; b_is(q, &B); bitset_set(q, 320); B.w[5] |= 1; b_is(q, &B); break;
        case 6: { uint64_t s = SYM64("s", 0, UINT64_MAX); ASSUME((s < 400) | (s >= (uint64_t)1 << 40) & (n > 0));
            if (s < 400) sym_concretize_(s / 64); bitset_shift_left(b, s);
            if (s < 400) { int e = (int)sym_concretize_(s / 64), sh = (int)(s % 64); bm m = A; for (int k = 0; k < NW; k++) { int l = k - e; m.w[k] = (l >= 0 ? A.w[l] << sh : 0) | (l >= 1 && sh ? A.w[l - 1] >> (64 - sh) : 0); } A = m; }
            break; }
        case 7: { uint64_t s = SYM64("s", 0, UINT64_MAX);
            if (s < 400) sym_concretize_(s / 64); bitset_shift_right(b, s);
            bm m; memset(&m, 0, sizeof m);
            if (s < 400) { int e = (int)sym_concretize_(s / 64), sh = (int)(s % 64); for (int k = 0; k + e < NW; k++) m.w[k] = (A.w[k + e] >> sh) | (sh ? A.w[k + e + 1] << (64 - sh) : 0); }
            A = m; break; }
        case 8: { int k = PICK("k", 11); CHECK(bitset_resize(b, (size_t)k, true), "resize succeeds"); CHECK(b->arraysize == (size_t)k, "resize gives the size asked for"); for (int i = k; i < NW; i++) A.w[i] = 0;
            CHECK(bitset_resize(b, 10, true) & (b->arraysize == 10), "resize again"); break; }
        case 9: { int k = PICK("k", 12); if (k == 11) CHECK(!bitset_grow(b, SIZE_MAX / 64 + 1), "grow refuses sizes that cannot be addressed"); else { CHECK(bitset_grow(b, (size_t)k) == (k >= n), "grow never shrinks"); CHECK(b->arraysize == (size_t)(k >= n ? k : n), "grow gives the size asked for"); } break; }
        case 10: { int z = PICK("zeros", 6); for (int i = n - z < 0 ? 0 : n - z; i < n; i++) b->array[i] = A.w[i] = 0;
            bool was = bitset_empty(b); (void)was; CHECK(bitset_trim(b), "trim succeeds"); b_is(b, &A); CHECK(b->arraysize == 0 || (b->array[b->arraysize - 1] != 0), "trim leaves no empty words at the end"); CHECK(bitset_trim(b), "trim again"); bitset_set(b, 65); A.w[1] |= 2; break; }
        case 11: {
            uint64_t card = mcount(A.w), mn = SIZE_MAX, mx = 0; uint64_t any = 0; for (int i = 0; i < n; i++) any |= A.w[i];
            CHECK(bitset_count(b) == card, "count gives the number of bits");
            CHECK(bitset_empty(b) == (any == 0), "empty tells whether there are no bits");
            mn = bitset_minimum(b); mx = bitset_maximum(b);
            if (any == 0) CHECK((mn == SIZE_MAX) & (mx == 0), "minimum and maximum of an empty bitset");
            else { uint64_t i = SYM64("i", 0, 1023); CHECK(mb(&A, mn) & mb(&A, mx) & (!mb(&A, i) | ((mn <= i) & (i <= mx))), "minimum and maximum are the first and last bit"); }
            break; }
        case 12: { /* next_set_bit finds the first bit from any position on */
            uint64_t i = SYM64("i", 0, UINT64_MAX), j = i; bool more = bitset_next_set_bit(b, &j); uint64_t k = SYM64("k", 0, 1023);
            if (more) CHECK((j >= i) & mb(&A, j) & !((k >= i) & (k < j) & mb(&A, k)), "next_set_bit finds the next bit");
            else CHECK((j == i) & !((k >= i) & mb(&A, k)), "next_set_bit stops after the last bit");
            break; }
        case 13: { /* a thin bitset enumerated in pieces */
            thin(b, &A); size_t buf[5], cap = (size_t)PICK("cap", 4), got, total = 0, from = SYM64("from", 0, 639), f0 = from, prev = 0; bool ok = true, first = true; buf[cap] = 0x77;
            if (cap == 0) { CHECK(bitset_next_set_bits(b, buf, 0, &from) == 0, "an empty buffer gets nothing"); break; }
            for (; (got = sym_concretize_(bitset_next_set_bits(b, buf, cap, &from))) > 0; from++) {
                CHECK(got <= cap, "next_set_bits keeps within the buffer");
                for (size_t i = 0; i < got; i++) { ok &= mb(&A, buf[i]) & (buf[i] >= f0) & (first || buf[i] > prev); prev = buf[i]; first = false; }
                total += got; ok &= from == prev;
            }
            uint64_t want = 0; for (int i = 0; i < n; i++) { uint64_t w = A.w[i]; if ((uint64_t)i < f0 / 64) w = 0; if ((uint64_t)i == f0 / 64) w &= ~(uint64_t)0 << (f0 % 64); want += (uint64_t)popc(w); }
            CHECK(ok & (total == want) & (buf[cap] == 0x77), "next_set_bits lists exactly the bits in order"); break; }
        case 14: { thin(b, &A); uint64_t card = sym_concretize_(mcount(A.w)); vn = 0; vok = true; vstop = (size_t)PICK("stop", 3);
            bool all = bitset_for_each(b, visit, &A); bool cut = vstop && card >= vstop;
            CHECK(vok & (vn == (cut ? vstop : card)) & (all == !cut), "for_each visits the bits in order until it is stopped"); break; }
    }
    b_is(b, &A);
    if (q) bitset_free(q);
    bitset_free(b);
}
ENTRY(bits_two) {
    int maxn = P("maxn", 5), c = PICKN("case", (maxn + 1) * (maxn + 1) * 6), na = c % (maxn + 1), nb = c / (maxn + 1) % (maxn + 1), op = c / (maxn + 1) / (maxn + 1);
    bitset_t *a = b_build(&A, na, (na + nb + op) % 3, "a"), *b = b_build(&B, nb, (na + op) % 3, "b"); bm R = A;
    for (int i = 0; i < NW; i++) R.w[i] = w_op(op % 4, A.w[i], B.w[i]); /* and, or, xor, andnot */
    if (op == 0) bitset_inplace_intersection(a, b);
    else if (op == 1) CHECK(bitset_inplace_union(a, b), "union succeeds");
    else if (op == 2) CHECK(bitset_inplace_symmetric_difference(a, b), "symmetric difference succeeds");
    else if (op == 3) bitset_inplace_difference(a, b);
    else if (op == 4) {
        uint64_t u[NW], x[NW], i[NW], d[NW]; for (int k = 0; k < NW; k++) { u[k] = A.w[k] | B.w[k]; x[k] = A.w[k] ^ B.w[k]; i[k] = A.w[k] & B.w[k]; d[k] = A.w[k] & ~B.w[k]; }
        CHECK(bitset_union_count(a, b) == mcount(u), "union_count is the size of the union");
        CHECK(bitset_intersection_count(a, b) == mcount(i), "intersection_count is the size of the intersection");
        CHECK(bitset_difference_count(a, b) == mcount(d), "difference_count is the size of the difference");
        CHECK(bitset_symmetric_difference_count(a, b) == mcount(x), "symmetric_difference_count is the size of the symmetric difference");
    } else {
        uint64_t i = 0, miss = 0; for (int k = 0; k < NW; k++) { i |= A.w[k] & B.w[k]; miss |= B.w[k] & ~A.w[k]; }
        CHECK(bitsets_disjoint(a, b) == (i == 0), "disjoint tells whether there is no common bit");
        CHECK(bitsets_intersect(a, b) == (i != 0), "intersect tells whether there is a common bit");
        CHECK(bitset_contains_all(a, b) == (miss == 0), "contains_all tells whether the second is included in the first");
    }
    b_is(a, op < 4 ? &R : &A); b_is(b, &B);
    /* spare words behind the end are not part of the set */
    if (op < 4) { bitset_set(a, 700); R.w[10] |= (uint64_t)1 << 60; b_is(a, &R); }
    bitset_free(a); bitset_free(b);
}
