/* 64-bit bitmaps as models: up to 4 chunks under 48-bit keys, built through the portable format (any storage form) */
#ifndef M64_H
#define M64_H
#include "h.h"
#include <roaring/roaring64.h>
typedef roaring64_bitmap_t r64;
typedef struct { int n; uint64_t key[4]; chunk_t *c[4]; } m64;
static bool q_has(const m64 *m, uint64_t x) { bool h = false; for (int i = 0; i < m->n; i++) h |= (bool)((m->key[i] == x >> 16) & ck_has(m->c[i], (uint16_t)x)); return h; }
static uint64_t q_card(const m64 *m) { uint64_t n = 0; for (int i = 0; i < m->n; i++) n += ck_card(m->c[i]); return n; }
static uint64_t q_rank(const m64 *m, uint64_t x) { /* elements <= x */
    uint64_t n = 0;
    for (int i = 0; i < m->n; i++) { uint64_t hi = x >> 16, full = ck_card(m->c[i]), part = ck_rank(m->c[i], (uint16_t)x); n += m->key[i] < hi ? full : m->key[i] == hi ? part : 0; }
    return n;
}
static r64 *q_build(const m64 *m) {
    size_t size = 8, at = 8; int nb = 0; roaring_bitmap_t *b[4]; uint32_t hi[4];
    for (int i = 0; i < m->n;) {
        model_t t; t.n = 0; hi[nb] = (uint32_t)(m->key[i] >> 16);
        int j = i;
        do { t.key[t.n] = (uint16_t)m->key[j]; t.c[t.n++] = m->c[j]; j++; } while (j < m->n && m->key[j] >> 16 == hi[nb]);
        b[nb] = m_build(&t); size += 4 + roaring_bitmap_portable_size_in_bytes(b[nb]); nb++; i = j;
    }
    if (nb == 0) return roaring64_bitmap_create();
    if (nb == 1 && !sym_is_symbolic_(hi[0]) && hi[0] == 0) { r64 *r = roaring64_bitmap_move_from_roaring32(b[0]); roaring_bitmap_free(b[0]); return r; }
    char *buf = (char *)malloc(size); uint64_t cnt = (uint64_t)nb; memcpy(buf, &cnt, 8);
    for (int i = 0; i < nb; i++) { memcpy(buf + at, &hi[i], 4); at += 4; at += roaring_bitmap_portable_serialize(b[i], buf + at); roaring_bitmap_free(b[i]); }
    r64 *r = roaring64_bitmap_portable_deserialize_safe(buf, at);
    free(buf);
    CHECK(r != 0, "a portable image of a bitmap is accepted");
    return r;
}
/* keys: 0 under one high half, 1 any 48 bits, 2 one chosen byte of the six differs, 3 the last chunks of the universe */
static uint64_t q_key(int mode, const char *nm) {
    if (mode == 0) return SYM16(nm, 0, 65535);
    if (mode == 1) return SYM64(nm, 0, ((uint64_t)1 << 48) - 1);
    if (mode == 2) return 0x112233445566ull ^ ((uint64_t)SYM8(nm, 0, 255) << (8 * P("byte", 2)));
    return (((uint64_t)1 << 48) - 1) - SYM8(nm, 0, 3);
}
static chunk_t *q_chunk(int kind, const char *nm) { /* 0 one value, 1 a short run, 2 everything, 3 two values */
    chunk_t *c = ck_new(kind == 0 || kind == 3 ? AR : RN);
    if (kind == 0) { c->np = 1; c->plus[0] = SYM16(nm, 0, 65535); }
    else if (kind == 3) { c->np = 2; c->plus[0] = SYM16(nm, 0x1238, 0x123f); c->plus[1] = SYM16(nm, 0x1240, 0x1247); }
    else { c->nr = 1; c->rs[0] = 0; c->re[0] = 65535; if (kind == 1) { c->rs[0] = SYM16(nm, 0x1238, 0x1247); c->re[0] = (uint16_t)(c->rs[0] + SYM16(nm, 0, 7)); } }
    ck_done(c);
    return c;
}
static void q_sym(m64 *m, int n, int mode, int kind, const char *nm) {
    m->n = n;
    for (int i = 0; i < n; i++) m->key[i] = q_key(mode, "key");
    for (int i = 1; i < n; i++) ASSUME(m->key[i - 1] < m->key[i]);
    for (int i = 0; i < n; i++) m->c[i] = q_chunk(i == 0 ? kind : kind == 2 ? 3 : 0, nm);
}
static m64 q_one(uint64_t key, chunk_t *c) { m64 m; m.n = 1; m.key[0] = key; m.c[0] = c; return m; }
#define CHECK_64(r, what) do { const char *why_ = 0; CHECK(roaring64_bitmap_internal_validate(r, &why_), what ": internal_validate accepts the bitmap"); } while (0)
#endif
