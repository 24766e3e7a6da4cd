/* E03: serialized forms of the C++ classes: sizes, reading back, truncated input, exchange with the C bitmaps, arbitrary bytes. */
#include "cxx.hpp"
#include <stdlib.h>
using namespace roaring::api;
static roaring_bitmap_t *c_read(const char *b, size_t n, uint32_t *) { return roaring_bitmap_portable_deserialize_safe(b, n); }
static roaring64_bitmap_t *c_read(const char *b, size_t n, uint64_t *) { return roaring64_bitmap_portable_deserialize_safe(b, n); }
static void c_list(const roaring_bitmap_t *r, out_t *o) { o->n = 0; roaring_iterate(r, it32, o); }
static void c_list(const roaring64_bitmap_t *r, out_t *o) { o->n = 0; roaring64_bitmap_iterate(r, it64, o); }
static void c_free(roaring_bitmap_t *r) { roaring_bitmap_free(r); }
static void c_free(roaring64_bitmap_t *r) { roaring64_bitmap_free(r); }
static size_t c_size(const roaring_bitmap_t *r) { return roaring_bitmap_portable_size_in_bytes(r); }
static size_t c_size(const roaring64_bitmap_t *r) { return roaring64_bitmap_portable_size_in_bytes(r); }
static size_t c_write(const roaring_bitmap_t *r, char *b) { return roaring_bitmap_portable_serialize(r, b); }
static size_t c_write(const roaring64_bitmap_t *r, char *b) { return roaring64_bitmap_portable_serialize(r, b); }
static Roaring view(const char *b, size_t n, Roaring *) { return Roaring::frozenView(b, n); }
static Roaring64Map view(const char *b, size_t, Roaring64Map *) { return Roaring64Map::frozenView(b); }
/* a set with containers of every kind, and such whose array, run and list forms have different sizes */
template <class T> static typename T::M build(int a, int e, int how) {
    typename T::M x = make<T>(a, e);
    if (how == 1) x.runOptimize();
    if (how == 2) { x.runOptimize(); typename T::M y = make<T>(05252, 0); x -= y; } /* runs where an array would be smaller */
    return x;
}
template <class T> static void x_ser_() {
    typedef typename T::M M; typedef typename T::V V;
    int c = PICKN("case", 10 * 3 * 4 * 3 * 6), a = MASKS[DIG(c, 10)], f = DIG(c, 3), l = DIG(c, 4), how = DIG(c, 3), what = c, m = how == 2 ? a & ~05252 : a, e = (a + f + what) & 3;
    place(f, l);
    M x = build<T>(a, e, how);
    is<T>(x, m);
    if (what < 2) {
        bool portable = what == 0;
        size_t n = x.getSizeInBytes(portable); char *b = (char *)malloc(n);
        CHECK(x.write(b, portable) == n, "write fills getSizeInBytes bytes");
        { M y = M::read(b, portable); is<T>(y, m); CHECK(x == y, "reading gives an equal object"); M z = M::read(b, portable); z |= y; is<T>(z, m); }
        if (portable) { M y = M::readSafe(b, n); is<T>(y, m);
            auto *r = c_read(b, n, (V *)0); CHECK(r != 0, "the C bitmap reads it"); out_t o; c_list(r, &o); CHECK(out_is<T>(&o, m), "the C bitmap reads the same set");
            size_t k = c_size(r); char *d = (char *)malloc(k); c_write(r, d); c_free(r); { M y2 = M::readSafe(d, k); is<T>(y2, m); M y3 = M::read(d); is<T>(y3, m); } free(d); }
        free(b);
    } else if (what == 2) { /* every truncation */
        size_t n = x.getSizeInBytes(), k = PICK("k", 200); char *b = (char *)malloc(n); x.write(b);
        ASSUME(k < n); char *t = (char *)malloc(k); if (k) memcpy(t, b, k);
        bool thrown = false; try { M y = M::readSafe(t, k); is<T>(y, m); } catch (...) { thrown = true; }
        CHECK(thrown, "readSafe refuses truncated input"); free(t); free(b);
    } else if (what == 3) { /* frozen */
        size_t n = x.getFrozenSizeInBytes(); char *b; if (posix_memalign((void **)&b, 32, (n + 31) & ~31ull)) return; memset(b, 0x5a, (n + 31) & ~31ull);
        x.writeFrozen(b); for (size_t i = n; i < ((n + 31) & ~31ull); i++) CHECK(b[i] == 0x5a, "writeFrozen stays within its size");
        { M y = view(b, n, (M *)0); is<T>(y, m); CHECK(x == y, "the view equals the object"); M z(y); z |= make<T>(0222, 0); is<T>(z, m | 0222); is<T>(y, m); }
        free(b);
    } else if (what == 4) { /* frozen view of the portable form */
        size_t n = x.getSizeInBytes(); char *b = (char *)malloc(n); x.write(b);
        { const M y = M::portableDeserializeFrozen(b); is<T>(y, m); CHECK(x == y, "the view equals the object"); } free(b);
    } else { /* more runs than an array of values would need, and something after them */
        uint64_t base = f == 0 ? 0 : f == 1 ? T::edge : T::edge * 3; int k = 12 + 4 * l; M y; if (how) y = make<T>(e & 1 ? 02000 : 0, e);
        y.addRangeClosed((V)base, (V)(base + 4 * k - 1)); y.runOptimize();
        uint64_t p = 4 * SYM8("p", 0, 11), q = p + 1;
        for (int i = 0; i < 4 * k; i++) if (i % 4 >= 2) y.remove((V)(base + i));
        y.remove((V)(base + q)); y.add((V)T::top);
        size_t n = y.getSizeInBytes(false), np = y.getSizeInBytes(); char *b = (char *)malloc(n), *d = (char *)malloc(np);
        CHECK(y.write(b, false) == n && y.write(d) == np, "write fills getSizeInBytes bytes");
        M z = M::read(b, false), w = M::readSafe(d, np), u = M::read(d);
        CHECK((z == y) & (w == y) & (u == y) & z.contains((V)(base + p)) & !z.contains((V)(base + q)) & z.contains((V)T::top), "reading gives an equal object");
        free(b); free(d);
    }
    OBS("card", x.cardinality());
}
template <class T> static void x_ser() { int64_t n = sym_live_allocs_(); x_ser_<T>(); CHECK(sym_live_allocs_() == n, "every allocation is given back"); }
ENTRY(x_ser32) { x_ser<T32>(); }
ENTRY(x_ser64) { x_ser<T64>(); }
/* arbitrary bytes: readSafe stays inside them, gives everything back, and agrees with the C reader on what that accepts */
ENTRY(x_bytes64) {
    int64_t n0 = sym_live_allocs_();
    int n = 8 + PICKN("n", P("max", 30) - 7), form = PICK("form", 5);
    unsigned char *b = (unsigned char *)malloc(n); sym_bytes_((char *)b, n, "b");
    ASSUME(b[0] <= 3); for (int i = 1; i < 8; i++) ASSUME(b[i] == 0);
    if (n >= 16) switch (form) { /* the cookies of the first inner bitmap */
        case 0: ASSUME(b[12] == 0x3a && b[13] == 0x30 && b[14] == 0 && b[15] == 0); if (n >= 20) ASSUME(b[16] <= 2 && !b[17] && !b[18] && !b[19]); break;
        case 1: ASSUME(b[12] == 0x3b && b[13] == 0x30 && b[14] == 0 && b[15] == 0); break;
        case 2: ASSUME(b[12] == 0x3b && b[13] == 0x30 && b[14] == 1 && b[15] == 0); break;
        case 3: ASSUME(b[12] == 0x3b && b[13] == 0x30 && b[14] == 3 && b[15] == 0); break;
        case 4: ASSUME(!(b[13] == 0x30 && (b[12] == 0x3a || b[12] == 0x3b))); break;
    } else ASSUME(form == 0);
    bool thrown = false;
    try { Roaring64Map m = Roaring64Map::readSafe((const char *)b, n); (void)m; } catch (...) { thrown = true; }
    roaring64_bitmap_t *r = roaring64_bitmap_portable_deserialize_safe((const char *)b, n);
    CHECK(!(r && thrown), "what the C bitmap reads, readSafe reads");
    if (r && roaring64_bitmap_internal_validate(r, 0) && roaring64_bitmap_get_cardinality(r) < P("card", 6)) {
        Roaring64Map m = Roaring64Map::readSafe((const char *)b, n); out_t o, q; c_list(r, &o); listed(m, &q);
        bool same = o.n == q.n; for (int i = 0; i < o.n && i < q.n; i++) same &= o.v[i] == q.v[i];
        CHECK(same, "the C bitmap and readSafe read the same set");
    }
    if (r) roaring64_bitmap_free(r);
    free(b);
    CHECK(sym_live_allocs_() == n0, "every allocation is given back");
    OBS("thrown", thrown);
}
