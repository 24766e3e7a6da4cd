/* The C++ classes. A set is described by cells: four sites of three cells each; the sites lie where something special
 * happens and one of the blocks is displaced by a solver-chosen amount; a bit mask says which cells are in the set, so every operation is one on masks. */
#include "roaring.hh"
#include "roaring64map.hh"
#include "sym.h"
#include <utility>
using namespace roaring;
using roaring::api::roaring_bitmap_t;
#define W 3
struct T32 { typedef Roaring M; typedef uint32_t V; static constexpr uint64_t edge = 0x10000, top = 0xffffffffu; };
struct T64 { typedef Roaring64Map M; typedef uint64_t V; static constexpr uint64_t edge = 0x100000000ull, top = ~0ull; };
static uint64_t g_d; static int g_f, g_l[3]; /* solver-chosen displacement of a block, which block, the lengths of the cells of every site */
static void place(int focus, int lens) {
    static const int L[4][3] = {{1, 1, 1}, {2, 0, 1}, {0, 1, 2}, {1, 2, 0}};
    for (int i = 0; i < 3; i++) g_l[i] = L[lens][i];
    g_f = focus; g_d = SYM8("d", 0, 8);
}
/* site 0 starts at 0 + d, sites 1 and 2 follow each other from edge - 8 + d, site 3 ends d below the top */
template <class T> static uint64_t site(int i) { return i == 0 ? (g_f == 0 ? g_d : 0) : i == 3 ? T::top - W + 1 - (g_f == 2 ? g_d : 0) : T::edge - 8 + (g_f == 1 ? g_d : 5) + (i - 1) * W; }
template <class T> static uint64_t cell_s(int c) { uint64_t s = site<T>(c / 3); for (int k = 0; k < c % 3; k++) s += g_l[k]; return s; }
static uint64_t cell_l(int c) { return g_l[c % 3]; }
template <class T> static bool s_in(int m, uint64_t v) { bool r = false; for (int c = 0; c < 12; c++) if (m >> c & 1) r |= v - cell_s<T>(c) < cell_l(c); return r; }
static uint64_t s_card(int m) { uint64_t n = 0; for (int c = 0; c < 12; c++) if (m >> c & 1) n += cell_l(c); return n; }
template <class T> static uint64_t s_rank(int m, uint64_t v) { /* elements <= v */
    uint64_t n = 0;
    for (int c = 0; c < 12; c++) if (m >> c & 1) { uint64_t s = cell_s<T>(c), l = cell_l(c), d = v - s; n += v < s ? 0 : d >= l ? l : d + 1; }
    return n;
}
static bool s_same(int m, int k) { bool r = true; for (int c = 0; c < 12; c++) if ((m ^ k) >> c & 1) r &= cell_l(c) == 0; return r; }
static bool s_sub(int m, int k) { bool r = true; for (int c = 0; c < 12; c++) if ((m & ~k) >> c & 1) r &= cell_l(c) == 0; return r; }
template <class T> static uint64_t s_min(int m) { uint64_t r = T::top; for (int c = 11; c >= 0; c--) if (m >> c & 1) r = cell_l(c) ? cell_s<T>(c) : r; return r; }
template <class T> static uint64_t s_max(int m) { uint64_t r = 0; for (int c = 0; c < 12; c++) if (m >> c & 1) r = cell_l(c) ? cell_s<T>(c) + cell_l(c) - 1 : r; return r; }
struct out_t { int n; uint64_t v[64]; };
static bool it32(uint32_t v, void *p) { out_t *o = (out_t *)p; if (o->n >= 64) return false; o->v[o->n++] = v; return true; }
static bool it64(uint64_t v, void *p) { out_t *o = (out_t *)p; if (o->n >= 64) return false; o->v[o->n++] = v; return true; }
static void listed(const Roaring &m, out_t *o) { o->n = 0; m.iterate(it32, o); }
static void listed(const Roaring64Map &m, out_t *o) { o->n = 0; m.iterate(it64, o); }
template <class T> static bool out_is(const out_t *o, int m) {
    bool ok = (uint64_t)o->n == s_card(m);
    for (int i = 0; i < o->n; i++) { ok &= s_in<T>(m, o->v[i]); if (i) ok &= o->v[i - 1] < o->v[i]; }
    return ok;
}
/* the object holds exactly the set m */
template <class T> static void is(const typename T::M &x, int m) {
    out_t o; listed(x, &o);
    CHECK(out_is<T>(&o, m), "the object holds exactly the values of its set");
    CHECK(x.cardinality() == s_card(m), "cardinality is the number of values");
    CHECK(x.isEmpty() == (s_card(m) == 0), "isEmpty tells whether there is none");
}
static Roaring64Map empties(int e, Roaring64Map *) { /* inner maps that are there but empty, as serialized data may have them */
    static const uint32_t keys[4][4] = {{0}, {0, 5}, {1, 0xffffffff}, {0, 1, 5, 0xffffffff}}; static const int n[4] = {0, 2, 2, 4};
    char b[8 + 4 * 12]; uint64_t k = n[e]; memcpy(b, &k, 8);
    for (int i = 0; i < n[e]; i++) { uint32_t h[3] = {keys[e][i], 12346, 0}; memcpy(b + 8 + 12 * i, h, 12); }
    return Roaring64Map::read(b);
}
static Roaring empties(int, Roaring *) { return Roaring(); }
template <class T> static void add_cell(typename T::M &x, int c) {
    uint64_t s = cell_s<T>(c), l = cell_l(c);
    if (c >= 9 && l && s + l - 1 == T::top) x.addRangeClosed((typename T::V)s, (typename T::V)T::top); else x.addRange(s, s + l);
}
template <class T> static typename T::M make(int m, int e) {
    typename T::M x = empties(e, (typename T::M *)0);
    for (int c = 0; c < 12; c++) if (m >> c & 1) add_cell<T>(x, c);
    return x;
}
static const int MASKS[10] = {0, 02, 05, 020, 0140, 0200, 02000, 07002, 02052, 0777};
