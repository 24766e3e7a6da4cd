/* an independent reader of the published 32-bit format */
#ifndef SPEC_H
#define SPEC_H
static uint16_t g16(const uint8_t *p) { return (uint16_t)(p[0] | p[1] << 8); }
static uint32_t g32(const uint8_t *p) { return (uint32_t)g16(p) | (uint32_t)g16(p + 2) << 16; }
/* an independent reader of the published format; words of chunk `which` and its key, or -1 */
static int spec_n(const uint8_t *b) { return (int)sym_concretize_((g32(b) & 0xffff) == 12347 ? (g32(b) >> 16) + 1 : g32(b + 4)); }
static size_t spec_read(const uint8_t *b, int which, uint16_t *key, uint64_t *w, bool *wf, uint16_t x, bool *has) { /* w may be NULL: then only membership of x */
    uint32_t cookie = g32(b); bool run = (cookie & 0xffff) == 12347; int n = spec_n(b);
    const uint8_t *p = b + 4, *fl = 0;
    if (run) { fl = p; p += (n + 7) / 8; } else { *wf &= cookie == 12346; p += 4; }
    const uint8_t *hd = p; p += 4 * n;
    const uint8_t *off = 0; if (!run || n >= 4) { off = p; p += 4 * n; }
    for (int i = 0; i < n; i++) {
        bool isrun = run && ((fl[i / 8] >> (i & 7)) & 1);
        uint32_t card = (uint32_t)sym_concretize_(g16(hd + 4 * i + 2)) + 1;
        if (off) *wf &= g32(off + 4 * i) == (uint32_t)(p - b);
        if (i == which) { *key = g16(hd + 4 * i); if (w) memset(w, 0, 8192); }
        if (isrun) {
            int nr = (int)sym_concretize_(g16(p)); uint32_t sum = 0; p += 2;
            for (int j = 0; j < nr; j++, p += 4) { uint32_t s = g16(p), l = g16(p + 2); sum += l + 1; if (i == which) { if (w) or_range(w, s, s + l); *has |= (bool)((x >= s) & (x <= s + l)); } }
            *wf &= sum == card;
        } else if (card <= 4096) {
            for (uint32_t j = 0; j < card; j++, p += 2) if (i == which) { uint16_t v = g16(p); *has |= v == x; if (w) { if (sym_is_symbolic_(v)) or_bit(w, v); else w_set(w, v); } }
        } else {
            if (i == which && !w) *has |= (bool)((p[x >> 3] >> (x & 7)) & 1);
            if (i == which && w) for (int j = 0; j < 1024; j++) w[j] = (uint64_t)g32(p + 8 * j) | (uint64_t)g32(p + 8 * j + 4) << 32;
            p += 8192;
        }
    }
    return (size_t)(p - b);
}
static char *exact(const char *src, size_t n) { char *b = (char *)malloc(n + !n); memcpy(b, src, n); return b; }
#endif
