#include "cxx.hpp"
/* E01, E02: operators, pure and in place, with an operand and with itself; unions of several */
template <class T> static void x_ops() {
    typedef typename T::M M; const bool is64 = sizeof(typename T::V) == 8; const int N = is64 ? 10 : P("masks", 5);
    int c = PICKN("case", 10 * N * 3 * 4), a = MASKS[DIG(c, 10)], b = MASKS[9 - DIG(c, N)], f = DIG(c, 3), l = DIG(c, 4), e = P("full", 0) ? (int)PICK("empties", 4) : (a + b + f + l) & 3;
    place(f, l);
    M x = make<T>(a, e & 1), y = make<T>(b, e);
    if (P("opt", 0)) { x.runOptimize(); y.removeRunCompression(); }
    { M r = x & y; is<T>(r, a & b); } { M r = x | y; is<T>(r, a | b); } { M r = x - y; is<T>(r, a & ~b); } { M r = x ^ y; is<T>(r, a ^ b); }
    { M r(x); CHECK(&(r &= y) == &r, "an assignment operator returns its object"); is<T>(r, a & b); r |= y; is<T>(r, b); }
    { M r(x); r |= y; is<T>(r, a | b); r &= r; is<T>(r, a | b); r |= r; is<T>(r, a | b); r -= r; is<T>(r, 0); }
    { M r(x); r -= y; is<T>(r, a & ~b); r ^= y; is<T>(r, a | b); }
    { M r(x); r ^= y; is<T>(r, a ^ b); r ^= r; is<T>(r, 0); }
    if (is64 || f != 1) { M z = make<T>(0222, 0); const M *in[4] = {&x, &y, &z, &x}; M r = M::fastunion(4, in); is<T>(r, a | b | 0222); M s = M::fastunion(0, in); is<T>(s, 0); }
    CHECK((x == y) == s_same(a, b), "two objects are equal exactly when their sets are");
    CHECK(x.isSubset(y) == s_sub(a, b), "isSubset compares the sets");
    CHECK(x.isStrictSubset(y) == (s_sub(a, b) & !s_same(a, b)), "isStrictSubset compares the sets");
    is<T>(x, a); is<T>(y, b);
    OBS("card", x.cardinality() + y.cardinality());
}
ENTRY(x_ops32) { x_ops<T32>(); }
ENTRY(x_ops64) { x_ops<T64>(); }
/* one update of every kind, its arguments at the cells */
enum { U_ADD, U_ADDC, U_REM, U_REMC, U_ADDR, U_ADDRC, U_REMR, U_REMRC, U_FLIP, U_FLIPC, U_MANY, U_CLEAR, U_OPT, U_UNRUN, U_SHRINK, U_LIST, U_BULK, U_LOW, N_U };
static void low_update(Roaring64Map &x, int how, uint32_t s, uint32_t t) { /* the overloads for 32-bit values */
    switch (how) { case 0: x.add(s); break; case 1: x.remove(s); break; case 2: { bool h = x.contains(s); CHECK(x.addChecked(s) == !h, "addChecked tells whether the value was missing"); break; } case 3: x.addRangeClosed(s, t); break; case 4: x.removeRangeClosed(s, t); break; case 5: x.flipClosed(s, t); break; case 6: { uint32_t v[2] = {t, s}; x.addMany(2, v); break; } }
}
static void low_update(Roaring &, int, uint32_t, uint32_t) {}
static void bulk(Roaring &x, uint64_t s, uint64_t t, int m) {
    BulkContext k, q; CHECK(x.containsBulk(q, (uint32_t)s) == s_in<T32>(m, s), "containsBulk finds the value");
    x.addBulk(k, (uint32_t)s); x.addBulk(k, (uint32_t)t); x.addBulk(k, (uint32_t)s);
}
static void bulk(Roaring64Map &x, uint64_t s, uint64_t t, int) { x.add(s); x.add(t); }
template <class T> static void x_upd() {
    typedef typename T::M M; typedef typename T::V V; const bool is64 = sizeof(V) == 8;
    int c = PICKN("case", 10 * N_U * 5 * 3 * 4), a = MASKS[DIG(c, 10)], u = DIG(c, N_U), f = DIG(c, 5), w = DIG(c, 3), n = DIG(c, 4), e = P("full", 0) ? (int)PICK("empties", 4) : (a + u + n) & 3;
    if (!is64) ASSUME(u != U_LOW); else ASSUME(u != U_BULK);
    /* the argument: from the start of cell c0 to the end of cell c1 */
    int c0, c1; if (f == 4) { c0 = 3 + 1 + w % 2; c1 = 6 + w / 2; place(1, n); } else { c0 = 3 * f + w; c1 = 3 * f + (w == 2 ? 2 : 1); place(f == 0 ? 0 : f == 3 ? 2 : 1, n); }
    uint64_t s = cell_s<T>(c0), l = 0; int rm = 0;
    for (int k = c0; k <= c1; k++) { l += cell_l(k); rm |= 1 << k; }
    M x = make<T>(a, e);
    if (w == 1) x.runOptimize();
    uint64_t t = s + l - 1; bool fits = l > 0, atop = c1 >= 9 && t == T::top;
    int r = a;
    switch (u) {
        case U_ADD: ASSUME(l == 1); x.add((V)s); r = a | rm; break;
        case U_ADDC: ASSUME(l == 1); CHECK(x.addChecked((V)s) == !s_in<T>(a, s), "addChecked tells whether the value was missing"); r = a | rm; break;
        case U_REM: ASSUME(l == 1); x.remove((V)s); r = a & ~rm; break;
        case U_REMC: ASSUME(l == 1); CHECK(x.removeChecked((V)s) == s_in<T>(a, s), "removeChecked tells whether the value was there"); r = a & ~rm; break;
        case U_ADDR: if (is64) ASSUME(!(fits && atop)); x.addRange(s, s + l); r = a | rm; break;
        case U_ADDRC: ASSUME(fits); x.addRangeClosed((V)s, (V)t); r = a | rm; break;
        case U_REMR: if (is64) ASSUME(!(fits && atop)); x.removeRange(s, s + l); r = a & ~rm; break;
        case U_REMRC: ASSUME(fits); x.removeRangeClosed((V)s, (V)t); r = a & ~rm; break;
        case U_FLIP: if (is64) ASSUME(!(fits && atop)); x.flip(s, s + l); r = a ^ rm; break;
        case U_FLIPC: ASSUME(fits); x.flipClosed((V)s, (V)t); r = a ^ rm; break;
        case U_MANY: { ASSUME(l == 2); V v[5] = {(V)t, (V)s, (V)site<T>(2), (V)s, (V)t}; ASSUME(g_l[0] == 1); x.addMany(5, v); r = a | rm | 0100; break; }
        case U_CLEAR: x.clear(); is<T>(x, 0); x.add((V)s); x.clear(); r = 0; break;
        case U_OPT: x.runOptimize(); break;
        case U_UNRUN: x.removeRunCompression(); break;
        case U_SHRINK: x.runOptimize(); x.shrinkToFit(); break;
        case U_LIST: { ASSUME(l == 2); V v[2] = {(V)t, (V)s}; M y(2, v), z = {(V)s, (V)t, (V)s}, q = M::bitmapOf(2, (V)s, (V)t), p = M::bitmapOfList({(V)t, (V)s}); is<T>(y, rm); is<T>(z, rm); is<T>(q, rm); is<T>(p, rm); x = {(V)t, (V)s}; r = rm; break; }
        case U_BULK: ASSUME(l == 2); bulk(x, s, t, a); r = a | rm; break;
        case U_LOW: { int how = PICK("low", 7); ASSUME(c1 < 3); uint32_t p = (uint32_t)s, q = (uint32_t)t; if (how < 3) ASSUME(l == 1); if (how == 6) ASSUME(l == 2); ASSUME(fits); low_update(x, how, p, q); r = how == 0 || how == 2 || how == 3 || how == 6 ? a | rm : how == 5 ? a ^ rm : a & ~rm; break; }
    }
    is<T>(x, r);
    OBS("card", x.cardinality());
    M y = make<T>(r, 0); CHECK((x == y) & (y == x), "the updated object equals one built directly");
}
ENTRY(x_upd32) { x_upd<T32>(); }
ENTRY(x_upd64) { x_upd<T64>(); }
/* questions about one set, their arguments anywhere near the blocks */
template <class T> static uint64_t near_by(int z, const char *n) { uint64_t o = SYM8(n, 0, 23); return z == 0 ? o : z == 1 ? T::edge - 12 + o : z == 2 ? T::top - o : (T::edge << (T::top > 0xffffffffu ? 2 : 4)) + o; }
static void more(const Roaring &x, int a, uint64_t q, uint64_t q2) {
    uint32_t v[2] = {(uint32_t)(q < q2 ? q : q2), (uint32_t)(q < q2 ? q2 : q)}; uint64_t r[2] = {77, 77};
    x.rank_many(v, v + 2, r);
    CHECK((r[0] == s_rank<T32>(a, v[0])) & (r[1] == s_rank<T32>(a, v[1])), "rank_many gives the rank of every value");
    uint64_t d = v[1] - v[0]; bool all = s_rank<T32>(a, v[1]) - s_rank<T32>(a, v[0]) == d && s_in<T32>(a, v[0]);
    CHECK(x.containsRangeClosed(v[0], v[1]) == all, "containsRangeClosed tells whether the whole range is there");
    CHECK(x.containsRange(v[0], (uint64_t)v[1] + 1) == all, "containsRange tells whether the whole range is there");
    uint32_t o[64]; uint64_t n = x.cardinality(); x.toUint32Array(o);
    out_t p; p.n = (int)n; for (int i = 0; i < p.n; i++) p.v[i] = o[i]; CHECK(out_is<T32>(&p, a), "toUint32Array lists the set");
    uint32_t w[3] = {0, 0, 4242}; if (n > 2) { x.rangeUint32Array(w, 1, 2); CHECK((w[0] == o[1]) & (w[1] == o[2]) & (w[2] == 4242), "rangeUint32Array lists the values from the offset on"); }
    CHECK(!x.isFull(), "a small set is not full");
}
static void more(const Roaring64Map &x, int a, uint64_t, uint64_t) {
    out_t p; p.n = (int)x.cardinality(); x.toUint64Array(p.v); CHECK(out_is<T64>(&p, a), "toUint64Array lists the set");
    CHECK(!x.isFull(), "a small set is not full");
}
struct stop_t { int left, seen; };
static bool stop32(uint32_t, void *p) { stop_t *s = (stop_t *)p; s->seen++; return --s->left > 0; }
static bool stop64(uint64_t, void *p) { return stop32(0, p); }
static void stopped(const Roaring &x, stop_t *s) { x.iterate(stop32, s); }
static void stopped(const Roaring64Map &x, stop_t *s) { x.iterate(stop64, s); }
static void counts(const Roaring &x, const Roaring &y, int a, int b) {
    CHECK((x.and_cardinality(y) == s_card(a & b)) & (x.or_cardinality(y) == s_card(a | b)) & (x.andnot_cardinality(y) == s_card(a & ~b)) & (x.xor_cardinality(y) == s_card(a ^ b)), "the cardinalities of the operations");
    CHECK(x.intersect(y) == (s_card(a & b) > 0), "intersect tells whether there is a common value");
}
static void counts(const Roaring64Map &, const Roaring64Map &, int, int) {}
template <class T> static void x_query() {
    typedef typename T::M M; typedef typename T::V V;
    int c = PICKN("case", 10 * 3 * 4 * 2 * 4 * 2), a = MASKS[DIG(c, 10)], f = DIG(c, 3), l = DIG(c, 4), opt = DIG(c, 2), z = DIG(c, 4), e = (a + l + z) & 3;
    place(f, l);
    M x = make<T>(a, e); if (opt) x.runOptimize();
    uint64_t q = near_by<T>(z, "q"), n = s_card(a);
    if (c == 0) {
        CHECK(x.contains((V)q) == s_in<T>(a, q), "contains tells whether the value is in the set");
        CHECK(x.rank((V)q) == s_rank<T>(a, q), "rank counts the values up to its argument");
        CHECK(x.getIndex((V)q) == (s_in<T>(a, q) ? (int64_t)s_rank<T>(a, q) - 1 : -1), "getIndex is the position of the value or -1");
        uint64_t k = SYM8("k", 0, 40); V v = 0;
        bool ok = x.select((V)k, &v);
        CHECK(ok == (k < n), "select answers for every rank below the cardinality");
        if (ok) CHECK(s_in<T>(a, v) && s_rank<T>(a, v) == k + 1, "select finds the value of that rank");
    } else {
        CHECK(x.minimum() == s_min<T>(a), "minimum is the smallest value"); CHECK(x.maximum() == s_max<T>(a), "maximum is the largest value");
        more(x, a, q, near_by<T>((z + l) % 3, "q2"));
        stop_t s = {2, 0}; stopped(x, &s); CHECK((uint64_t)s.seen == (n < 2 ? n : 2), "iterate stops when told");
        if (T::top == 0xffffffffu) { M y = make<T>(l & 1 ? 0140 : 02052, 0); int b = l & 1 ? 0140 : 02052; counts(x, y, a, b); }
    }
    OBS("n", n);
}
ENTRY(x_query32) { x_query<T32>(); }
ENTRY(x_query64) { x_query<T64>(); }
/* iterators: walks in both directions, jumps, comparisons, with inner maps that are empty */
template <class T> static void x_iter() {
    typedef typename T::M M; typedef typename T::V V; typedef typename M::const_iterator I;
    int c = PICKN("case", 10 * 3 * 4 * 2 * 4 * 2), a = MASKS[DIG(c, 10)], f = DIG(c, 3), l = DIG(c, 4), opt = DIG(c, 2), z = DIG(c, 4), e = (a + l + z) & 3;
    place(f, l);
    M other{1, 2, 3}; I oe = other.end(); (void)oe; /* no iterator of one object is about another */
    M x = make<T>(a, e); if (opt) x.runOptimize();
    uint64_t n = s_card(a);
    if (c == 0) {
        out_t o; o.n = 0; for (I i = x.begin(); i != x.end() && o.n < 63; ++i) o.v[o.n++] = *i; CHECK(out_is<T>(&o, a), "walking forward lists the set in order");
        o.n = 0; { I i = x.begin(); while (!(i == x.end()) && o.n < 63) { I j = i++; o.v[o.n++] = *j; } } CHECK(out_is<T>(&o, a), "walking forward with i++ lists the set in order");
        o.n = 0; for (V v : x) { if (o.n > 62) break; o.v[o.n++] = v; } CHECK(out_is<T>(&o, a), "the range loop lists the set in order");
        if (n) {
            I i = x.end(); o.n = (int)n; int k = o.n; while (k > 0) { --i; o.v[--k] = *i; } CHECK(out_is<T>(&o, a), "walking backward from the end lists the set"); CHECK(i == x.begin(), "walking backward over every value reaches the beginning");
            I j = x.end(); k = o.n; j--; while (k > 0) { o.v[--k] = *j; if (k) { I h = j--; CHECK(*h == (V)o.v[k], "i-- gives the old position"); } } CHECK(out_is<T>(&o, a), "walking backward with i-- lists the set");
            I t = x.begin(); ++t; --t; CHECK(t == x.begin() && *t == s_min<T>(a), "a step forward and one back is the same position");
        }
    } else {
        uint64_t q = near_by<T>(z, "q"), q2 = near_by<T>((z + l) % 3, "q2"), below = q ? s_rank<T>(a, q - 1) : 0, below2 = q2 ? s_rank<T>(a, q2 - 1) : 0;
        I i = x.begin(), j = x.begin();
        bool ok = i.move_equalorlarger((V)q), ok2 = j.move_equalorlarger((V)q2);
        CHECK(ok == (below < n), "move_equalorlarger tells whether there is such a value");
        if (ok) CHECK((*i >= q) & s_in<T>(a, *i) && s_rank<T>(a, *i) == below + 1, "move_equalorlarger finds the smallest value not below its argument");
        CHECK((i == x.end()) == !ok, "an iterator without a value is the end"); CHECK((i != x.end()) == ok, "an iterator with a value is not the end"); CHECK((x.end() == i) == !ok, "equality is symmetric");
        CHECK(ok2 == (below2 < n), "move_equalorlarger tells whether there is such a value");
        CHECK((i == j) == (below == below2), "== compares positions"); CHECK((i != j) == (below != below2), "!= compares positions");
        CHECK((i < j) == (below < below2), "< compares positions"); CHECK((i <= j) == (below <= below2), "<= compares positions");
        CHECK((i > j) == (below > below2), "> compares positions"); CHECK((i >= j) == (below >= below2), ">= compares positions");
        if (ok) { I k = i; ++k; CHECK((k == x.end()) == (below + 1 == n), "a step from the last value is the end"); if (below) { --i; CHECK(s_rank<T>(a, *i) == below, "a step back is the previous value"); } }
        else if (n) { --i; CHECK(*i == s_max<T>(a), "a step back from the end is the last value"); }
    }
    OBS("n", n);
}
ENTRY(x_iter32) { x_iter<T32>(); }
ENTRY(x_iter64) { x_iter<T64>(); }
/* copies, moves, swaps: every object keeps its own set */
template <class T> static void touch(typename T::M &x, int how, int *a) {
    switch (how) {
        case 0: add_cell<T>(x, 4); *a |= 020; break;
        case 1: { typename T::M y = make<T>(07002, 0); x &= y; *a &= 07002; break; }
        case 2: { typename T::M y = make<T>(0052, 0); x ^= y; *a ^= 0052; break; }
        case 3: { typename T::M y = make<T>(0140, 0); x -= y; *a &= ~0140; break; }
        case 4: x.clear(); *a = 0; break;
        case 5: x.runOptimize(); x.shrinkToFit(); break;
        case 6: { typename T::M y = make<T>(0225, 0); x |= y; *a |= 0225; break; }
        case 7: x.removeRunCompression(); break;
    }
}
template <class T> static void x_value_() {
    typedef typename T::M M;
    int c = PICKN("case", 10 * 3 * 4 * 2 * 8 * 10), a = MASKS[DIG(c, 10)], f = DIG(c, 3), l = DIG(c, 4), cow = DIG(c, 2), t = DIG(c, 8), op = c, b = 0252, a2 = a;
    place(f, l);
    M x = make<T>(a, l); x.setCopyOnWrite(cow); CHECK(x.getCopyOnWrite() == (bool)cow, "the copy-on-write flag is kept"); if (t & 1) x.runOptimize();
    switch (op) {
        case 0: { M y(x); touch<T>(y, t, &a2); is<T>(y, a2); is<T>(x, a); break; }
        case 1: { M y(x); touch<T>(x, t, &a2); is<T>(x, a2); is<T>(y, a); break; }
        case 2: { M y = make<T>(b, 0); y = x; touch<T>(y, t, &a2); is<T>(x, a); is<T>(y, a2); x = y; is<T>(x, a2); break; }
        case 3: { M y(std::move(x)); is<T>(y, a); x = make<T>(b, 0); touch<T>(y, t, &a2); is<T>(y, a2); is<T>(x, b); break; }
        case 4: { M y = make<T>(b, 0); y = std::move(x); is<T>(y, a); x = y; touch<T>(x, t, &a2); is<T>(x, a2); is<T>(y, a); break; }
        case 5: { M y = make<T>(b, 0); y.swap(x); is<T>(y, a); is<T>(x, b); touch<T>(y, t, &a2); is<T>(y, a2); is<T>(x, b); std::swap(x, y); is<T>(x, a2); is<T>(y, b); break; }
        case 6: { M &same = x; x = same; is<T>(x, a); touch<T>(x, t, &a2); is<T>(x, a2); break; }
        case 7: { M *y = new M(x); M z(*y); touch<T>(*y, t, &a2); is<T>(z, a); delete y; is<T>(z, a); is<T>(x, a); touch<T>(z, t, &a); is<T>(z, a); break; }
        case 8: { M y(x), z(x); y &= z; touch<T>(y, t, &a2); z |= x; is<T>(z, a); is<T>(y, a2); M w = y | z; is<T>(w, a | a2); break; }
        case 9: { M y(x); y.setCopyOnWrite(true); M z(y); touch<T>(z, t, &a2); is<T>(y, a); is<T>(z, a2); is<T>(x, a); M e; x = e; is<T>(x, 0); is<T>(y, a); break; }
    }
    OBS("op", op);
}
template <class T> static void x_value() { int64_t n = sym_live_allocs_(); x_value_<T>(); CHECK(sym_live_allocs_() == n, "every allocation is given back"); }
ENTRY(x_value32) { x_value<T32>(); }
ENTRY(x_value64) { x_value<T64>(); }
/* ranges over several high halves, one of them whole */
ENTRY(x_wide64) {
    const uint64_t E = 0x100000000ull;
    int c = PICKN("case", 8); uint64_t d = SYM8("d", 1, 9), e = SYM8("e", 1, 9), s = E - d, t = 2 * E + e; /* [s, t) */
    Roaring64Map x = empties(c & 3, (Roaring64Map *)0);
    x.add((uint64_t)3); x.add(5 * E);
    switch (c) {
        case 0: case 3: x.addRange(s, t); break;
        case 1: x.addRangeClosed(s, t); x.remove(t); x.addRange(E + 7, E + 70000); break;
        case 2: x.flip(s, t); break;
        case 4: { Roaring64Map y; y.addRange(s, t); x |= y; break; }
        case 5: { Roaring64Map y; y.flip(s, t); x ^= y; x.runOptimize(); break; }
        case 6: x.addRange(s, 3 * E + 5); x.removeRange(t, 3 * E + 5); break;
        case 7: { x.addRange(E - 20, 2 * E + 30); Roaring64Map y; y.addRange(E - 20, s); y.addRange(t, 2 * E + 30); x -= y; break; }
    }
    uint64_t n = t - s + 2;
    CHECK(x.cardinality() == n, "cardinality of a range over several high halves");
    uint64_t z = PICK("z", 5); if (!P("full", 0)) ASSUME(z == 0 || z == (uint64_t)c % 5 || z == 2); uint64_t q = SYM8("q", 0, 20); q = z == 0 ? E - 10 + q : z == 1 ? E + 0x12340000 + q : z == 2 ? 2 * E - 10 + q : z == 3 ? 5 * E - 10 + q : q;
    bool in = q == 3 || q == 5 * E || (q >= s && q < t);
    uint64_t r = (q >= 3) + (q < s ? 0 : q < t ? q - s + 1 : t - s) + (q >= 5 * E);
    CHECK(x.contains(q) == in, "contains"); CHECK(x.rank(q) == r, "rank"); CHECK(x.getIndex(q) == (in ? (int64_t)r - 1 : -1), "getIndex");
    uint64_t v = 0; CHECK(x.select(r, &v) == (r < n), "select answers below the cardinality"); if (r < n) CHECK(v > q && (v == q + 1 || v == s || v == 3 || v == 5 * E), "select finds the next value");
    CHECK(x.minimum() == 3 && x.maximum() == 5 * E, "minimum and maximum");
    auto i = x.begin(); bool ok = i.move_equalorlarger(q); CHECK(ok == (r - in < n), "move_equalorlarger"); if (ok) { CHECK(in ? *i == q : *i == v, "the iterator is at the next value"); --i; }
    if (z == 0 && (c == 0 || P("full", 0))) { Roaring64Map y(x); y.flipClosed(s, t); y.remove(t); y.remove((uint64_t)3); y.removeChecked(5 * E); CHECK(y.isEmpty() && y.cardinality() == 0 && y.begin() == y.end(), "flipping the range again takes it away"); y.add(E + 5); CHECK(y.isSubset(x) && !x.isSubset(y) && y.isStrictSubset(x), "a value of the range is a subset"); CHECK((y & x) == y && (x | y) == x, "intersection and union with a value of the range"); }
    OBS("n", n);
}
/* ranges whose ends are solver-chosen distances away from the first or last value of any inner map, over maps that are there or not */
ENTRY(x_edges64) {
    const uint64_t E = 0x100000000ull; static const uint64_t H[6] = {0, 1, 2, 4, 5, 0xffffffff}, O[4] = {0, 3, 0xfffffffdull, 0xffffffffull};
    int c = PICKN("case", 6 * 6 * 4 * 4); int hi = DIG(c, 6), hj = DIG(c, 6), e = DIG(c, 4), op = c;
    ASSUME(hi <= hj);
    if (!P("full", 0)) ASSUME((hi + 2 * hj + e + op) % 2 == 0);
    uint64_t d0 = SYM8("d0", 0, 4), d1 = SYM8("d1", 0, 4), s = H[hi] * E + (e & 1 ? 0xffffffffull - d0 : d0), t = H[hj] * E + (e & 2 ? 0xffffffffull - d1 : d1);
    ASSUME(s <= t);
    bool grow = op == 2; /* add: only over the border between two neighbours, or inside one map */
    if (grow) ASSUME((hi == hj && (e == 0 || e == 3)) || (H[hj] == H[hi] + 1 && e == 1));
    if (op == 3) ASSUME(t != ~0ull); /* half-open */
    bool in[24]; uint64_t p[24]; int n = 0, left = 0;
    Roaring64Map x; bool gone = op != 2;
    for (int k = 0; k < 6; k++) for (int o = 0; o < 4; o++) { if (k == 3) continue; p[n] = H[k] * E + O[o]; x.add(p[n]); in[n] = !(gone && p[n] >= s && p[n] <= t); left += in[n]; n++; }
    if (op == 0) x.removeRangeClosed(s, t);
    else if (op == 1) { Roaring64Map y(x); for (int i = 0; i < n; i++) if (in[i]) y.remove(p[i]); x -= y; }
    else if (op == 3) x.removeRange(s, t + 1);
    else { uint64_t was = 0; for (int i = 0; i < n; i++) was += p[i] >= s && p[i] <= t; x.addRangeClosed(s, t); CHECK(x.cardinality() == (uint64_t)n + (t - s + 1 - was), "addRangeClosed adds exactly the missing values"); CHECK(x.contains(s) && x.contains(t) && (t == s || x.contains(s + 1)), "the ends of the range are there"); x.flipClosed(s, t); for (int i = 0; i < n; i++) { in[i] = !(p[i] >= s && p[i] <= t); left += 0; } left = 0; for (int i = 0; i < n; i++) left += in[i]; }
    bool same = true; for (int i = 0; i < n; i++) same &= x.contains(p[i]) == in[i];
    CHECK(same, "exactly the values of the range are gone");
    CHECK(x.cardinality() == (uint64_t)left, "cardinality is the number of values");
    uint64_t mn = ~0ull, mx = 0; for (int i = n - 1; i >= 0; i--) if (in[i]) mn = p[i]; for (int i = 0; i < n; i++) if (in[i]) mx = p[i];
    CHECK(x.minimum() == mn && x.maximum() == mx && x.isEmpty() == (left == 0), "minimum, maximum and isEmpty");
    int k = 0; uint64_t last = 0; for (auto i = x.begin(); i != x.end(); ++i, k++) { CHECK(k == 0 || *i > last, "iteration is in order"); last = *i; }
    CHECK(k == left, "iteration visits every value");
    OBS("n", left);
}
