"""What is checked for every property: harness entries, configurations, parameters, shards, time limits, stated bounds."""
NSAMPLES = {"quick": 24, "thorough": 200}
ASSUMPTIONS = [
    "clang 18 -O1 (no vectoriser) LLVM IR of the sources under /repo/src stands for the compiled library; sampled paths are re-run natively to check that",
    "little-endian x86-64; allocation of more than 2 GiB fails, other allocations succeed unless the property is about allocation failure",
    "the executor's own instruction semantics, bit-blasting and SAT search (differentially tested against z3; part of the unsat answers of every run is re-decided by z3)",
]
BUDGET = {"quick": 400, "thorough": 3000}
def budget(prop, tier): return PROPS[prop].get("budget", {}).get(tier, BUDGET[tier])
PROPS = {}
def J(h, entry, cfg=0, shards=1, time=60, samples=1, args=(), prio=0, name=None, **params):
    return dict(h=h, entry=entry, cfg=cfg, shards=shards, time=time, samples=samples, args=list(args), prio=prio, params=params,
                name=(name or entry) + ("" if cfg == 0 else "_cfg%d" % cfg))
def prop(pid, quick, thorough=None, bounds="", outside="", note="", **kw):
    PROPS[pid] = dict(quick=quick, thorough=thorough or quick, bounds=bounds, outside=outside, note=note, **kw)
def jobs(p, tier): return PROPS[p][tier]

SHAPES = ("18 chunk shapes (arrays of 1-3, ~40, 4095 and 4096 values, an array of consecutive values, bitsets of 4097, half, mixed, "
          "all-but-2 and all values, runs of 1, 2, 30, 2047 intervals, full, full minus one)")
TINY = "up to 2 chunks per bitmap with any 16-bit keys, holding a solver-chosen value, a solver-chosen short run or a full chunk"
OUT_BASE = "other base patterns of the large containers; more chunks per bitmap"
N2 = 324
prop("C01",
    [J("alg.c", "alg_kernel", 0, N2, 60, 1, win=3, near=3), J("alg.c", "alg_merge", 0, 192, 60, 1)],
    [J("alg.c", "alg_kernel", 0, N2, 600, 2, w=w, win=8, near=8, layouts=6, full=1, name="alg_kernel_w%d" % w) for w in (0, 1, 2)]
    + [J("alg.c", "alg_merge", 0, 768, 600, 1, maxn=3)],
    bounds="two bitmaps, one chunk each: every ordered pair of " + SHAPES + "; 1-6 solver-chosen values/ends per side: any 16-bit value when both sides are small arrays, otherwise in windows at the start, a word border and the end; and " + TINY + ", with and without copy-on-write sharing",
    outside=OUT_BASE)
prop("C02",
    [J("alg.c", "alg_kernel", 0, N2, 60, 1, win=3, near=3, inplace=1), J("alg.c", "alg_merge", 0, 192, 60, 1, inplace=1),
     J("alg.c", "alg_kernel", 0, N2, 60, 1, win=1, near=1, inplace=1, cow=3, name="alg_kernel_shared")],
    [J("alg.c", "alg_kernel", 0, N2, 600, 2, w=w, win=8, near=8, layouts=6, full=1, inplace=1, name="alg_kernel_w%d" % w) for w in (0, 1, 2)]
    + [J("alg.c", "alg_merge", 0, 768, 600, 1, maxn=3, inplace=1), J("alg.c", "alg_kernel", 0, N2, 600, 1, win=6, near=6, inplace=1, cow=3, name="alg_kernel_shared")],
    bounds="as C01, in-place forms; every pair of shapes also with both chunks shared copy-on-write with a copy that must not change",
    outside=OUT_BASE)
prop("C03",
    [J("alg.c", "lazy_kernel", 0, 972, 90, 1, win=1, near=1), J("alg.c", "many_merge", 0, 40, 120, 1, maxb=4), J("alg.c", "many_big", 0, 240, 60, 1)],
    [J("alg.c", "lazy_kernel", 0, 1296, 900, 1, win=4, near=4, full=1), J("alg.c", "many_merge", 0, 60, 1200, 1, maxb=5, full=1), J("alg.c", "many_big", 0, 972, 300, 1, win=8)],
    bounds="chains of three bitmaps over every pair of " + SHAPES + " with a third shape varying with them, all four chain forms; or_many, or_many_heap and xor_many of 0-3 bitmaps with any 16-bit keys and small chunks, and of three large chunks",
    outside=OUT_BASE + "; more than three (thorough: four) operands")
prop("C04",
    [J("alg.c", "query_kernel", 0, N2, 60, 1, win=3, near=3), J("alg.c", "query_merge", 0, 48, 60, 1), J("alg.c", "query_equal_forms", 0, 108, 60, 1, win=1), J("alg.c", "query_jaccard", 0, 1, 60, 2)],
    [J("alg.c", "query_kernel", 0, N2, 600, 2, w=w, win=8, near=8, layouts=6, full=1, name="query_kernel_w%d" % w) for w in (0, 1, 2)]
    + [J("alg.c", "query_merge", 0, 48, 600, 1, maxn=3), J("alg.c", "query_equal_forms", 0, 108, 600, 1, win=6, full=1), J("alg.c", "query_jaccard", 0, 1, 60, 2)],
    bounds="every ordered pair of " + SHAPES + " with 1-6 solver-chosen values; " + TINY + "; the same set in two storage forms, with and without one flipped value; jaccard_index for all arrays of 1-2 and 2 values",
    outside=OUT_BASE)
UP = "upd.c"
prop("C05",
    [J(UP, "upd_kernel", 0, 144, 60, 1, win=3), J(UP, "upd_seq", 0, 128, 60, 1)],
    [J(UP, "upd_kernel", 0, 1152, 600, 1, w=w, win=8, op2all=1, name="upd_kernel_w%d" % w) for w in (0, 1, 2)]
    + [J(UP, "upd_seq", 0, 192, 1200, 1, maxn=3), J(UP, "upd_seq", 0, 768, 2000, 1, k=3, name="upd_seq3")],
    bounds="two updates with solver-chosen values in or next to the window on every one of " + SHAPES + "; sequences of 2 (thorough: 3) updates (add, remove, their checked forms, add_many, remove_many, add_bulk/contains_bulk) with any 32-bit values on bitmaps of 0-1 (thorough: 0-2) chunks with any key, with and without copy-on-write sharing",
    outside=OUT_BASE + "; longer update sequences")
prop("C06",
    [J(UP, "rng_kernel", 0, 270, 60, 1, win=3, near=3), J(UP, "rng_bounds", 0, 36, 60, 1, win=3), J(UP, "rng_multi", 0, 128, 60, 1, win=3), J(UP, "rng_query_bounds", 0, 9, 60, 4), J(UP, "rng_from", 0, 15, 60, 2)],
    [J(UP, "rng_kernel", 0, 270, 900, 1, w=w, win=8, name="rng_kernel_w%d" % w) for w in (0, 1, 2)]
    + [J(UP, "rng_bounds", 0, 36, 900, 1, win=8), J(UP, "rng_multi", 0, 128, 600, 1, win=8), J(UP, "rng_query_bounds", 0, 9, 600, 4), J(UP, "rng_from", 0, 15, 600, 2)],
    bounds="one chunk of every one of " + SHAPES + ", range ends anywhere in or next to the window or at the borders of the chunk; ranges with any 64-bit bounds that are empty, touch up to 8 values anywhere, or reach or pass the end of the universe, over bitmaps with any keys; ranges over three chunks with four layouts of present chunks; from_range with any 32-bit step for up to 6 values, and with steps around 20000, 32767, 43690, 65533 over 70000 values",
    outside=OUT_BASE + "; ranges over more than three chunks")
prop("C07",
    [J(UP, "ord_kernel", 0, 108, 60, 1, win=3), J(UP, "ord_keys", 0, 12, 60, 4)],
    [J(UP, "ord_kernel", 0, 108, 900, 1, w=w, win=12, name="ord_kernel_w%d" % w) for w in (0, 1, 2)] + [J(UP, "ord_keys", 0, 15, 900, 4, maxn=4)],
    bounds="one chunk of every one of " + SHAPES + ", queries anywhere in or next to the window; " + TINY.replace("2 chunks", "3 (thorough: 4) chunks") + ", queried with any 32-bit values and positions",
    outside=OUT_BASE)
prop("C09",
    [J(UP, "exp_kernel", 0, 90, 60, 1, win=2), J(UP, "exp_keys", 0, 54, 60, 2)],
    [J(UP, "exp_kernel", 0, 90, 1200, 1, w=w, win=6, full=1, name="exp_kernel_w%d" % w) for w in (0, 1, 2)] + [J(UP, "exp_keys", 0, 54, 300, 2)],
    bounds="one chunk of every one of " + SHAPES + " (the callback forms without the two largest in quick): to_uint32_array, range_uint32_array at ten offsets and four limits, iterate stopped after 1, 3 or no values, iterate64, to_bitset; up to 2 small chunks with any keys, shared or not",
    outside=OUT_BASE)
prop("C10",
    [J(UP, "opt_kernel", 0, 72, 60, 1, win=4, near=4), J(UP, "opt_stats", 0, 54, 60, 1, win=4, near=4)],
    [J(UP, "opt_kernel", 0, 72, 900, 1, w=w, win=12, near=12, name="opt_kernel_w%d" % w) for w in (0, 1, 2)] + [J(UP, "opt_stats", 0, 54, 600, 1, win=8, near=8)],
    bounds="one chunk of every one of " + SHAPES + " under run_optimize, remove_run_compression, shrink_to_fit, run_optimize+shrink_to_fit, and one later update; statistics of 0-2 chunks of all shapes",
    outside=OUT_BASE)
prop("C17",
    [J(UP, "off_kernel", 0, 126, 60, 1, win=4), J(UP, "off_any", 0, 18, 60, 4)],
    [J(UP, "off_kernel", 0, 126, 900, 1, w=w, win=12, name="off_kernel_w%d" % w) for w in (0, 1, 2)] + [J(UP, "off_any", 0, 18, 900, 4)],
    bounds="one chunk of every one of " + SHAPES + " shifted by 21 offsets within and across chunks; any 64-bit offset on up to 2 small chunks with any keys, shared or not",
    outside=OUT_BASE + "; large containers at offsets other than the 21")
prop("C11",
    [J("alg.c", "alg_kernel", 0, N2, 60, 1, win=1, near=1, valid=1), J("alg.c", "alg_kernel", 0, N2, 60, 1, win=1, near=1, valid=1, inplace=1, name="alg_kernel_inplace"), J("alg.c", "alg_merge", 0, 192, 60, 1, valid=1, inplace=1),
     J(UP, "upd_kernel", 0, 144, 60, 1, win=1, valid=1), J(UP, "rng_kernel", 0, 270, 60, 1, win=1, near=1, valid=1), J(UP, "rng_multi", 0, 128, 60, 1, win=2, valid=1), J(UP, "opt_kernel", 0, 72, 60, 1, win=2, near=2, valid=1), J(UP, "off_kernel", 0, 126, 60, 1, win=2, valid=1)],
    [J("alg.c", "alg_kernel", 0, N2, 900, 1, win=6, near=6, valid=1), J("alg.c", "alg_kernel", 0, N2, 900, 1, win=6, near=6, valid=1, inplace=1, name="alg_kernel_inplace"), J("alg.c", "alg_merge", 0, 192, 600, 1, valid=1, inplace=1),
     J("alg.c", "lazy_kernel", 0, N2, 900, 1, win=2, near=2, valid=1),
     J(UP, "upd_kernel", 0, 1152, 900, 1, win=6, op2all=1, valid=1), J(UP, "upd_seq", 0, 128, 600, 1, valid=1), J(UP, "rng_kernel", 0, 270, 900, 1, win=6, near=6, valid=1), J(UP, "rng_multi", 0, 128, 600, 1, win=6, valid=1), J(UP, "rng_bounds", 0, 36, 600, 1, valid=1), J(UP, "opt_kernel", 0, 72, 600, 1, win=8, near=8, valid=1), J(UP, "off_kernel", 0, 126, 600, 1, win=8, valid=1)],
    bounds="the results of the set operations, updates, range updates, storage operations and offsets explored for C01, C02, C05, C06, C10 and C17 (smaller windows), judged by internal_validate and by an independent check of the representation invariants",
    outside=OUT_BASE)
IT = "iter.c"
prop("C08",
    [J(IT, "iter_kernel", 0, 324, 60, 1, win=3), J(IT, "iter_keys", 0, 324, 60, 1), J(IT, "iter_walk", 0, 54, 60, 1, win=3)],
    [J(IT, "iter_kernel", 0, 324, 900, 1, w=w, win=8, name="iter_kernel_w%d" % w) for w in (0, 1, 2)]
    + [J(IT, "iter_keys", 0, 324, 1200, 1, full=1), J(IT, "iter_keys", 0, 324, 1200, 1, k=3, name="iter_keys3"), J(IT, "iter_walk", 0, 54, 1200, 1, win=8, full=1)],
    bounds="one chunk of every one of " + SHAPES + ": any start (first, last, move_equalorlarger to a solver-chosen value) and two steps among advance, previous, move_equalorlarger, read of 2 or 5, copy; the same on up to 2 small chunks with any keys and any 32-bit targets, shared or not; whole traversals forward, backward and by reads of 1, 63, 4096 and 65536",
    outside=OUT_BASE + "; more than two (thorough: three) calls after the start in one sequence")
SE = "ser.c"; UN = "untr.c"
prop("C12",
    [J(SE, "ser_kernel", 0, 90, 60, 1, win=3, near=3), J(SE, "ser_keys", 0, 120, 60, 1), J(SE, "ser_mixed", 0, 108, 60, 1, win=3, near=3)],
    [J(SE, "ser_kernel", 0, 90, 900, 1, w=w, win=12, near=12, name="ser_kernel_w%d" % w) for w in (0, 1, 2)] + [J(SE, "ser_keys", 0, 120, 900, 1, maxn=3), J(SE, "ser_mixed", 0, 108, 900, 1, win=10, near=10)],
    bounds="one chunk of every one of " + SHAPES + "; " + TINY + ", with and without copy-on-write sharing; mixtures of 1-5 chunks of different kinds (both header forms): portable and native formats, sizes announced, bytes against the published layout, every reader on the result, truncated prefixes",
    outside=OUT_BASE + "; big-endian hosts")
prop("C13",
    [J(SE, "frz_kernel", 0, 72, 60, 1, win=3, near=3), J(SE, "frz_keys", 0, 192, 60, 1), J(SE, "ser_mixed", 0, 108, 60, 1, win=3, near=3)],
    [J(SE, "frz_kernel", 0, 72, 900, 1, w=w, win=12, near=12, name="frz_kernel_w%d" % w) for w in (0, 1, 2)] + [J(SE, "frz_keys", 0, 192, 900, 1, maxn=3), J(SE, "ser_mixed", 0, 108, 900, 1, win=10, near=10)],
    bounds="one chunk of every one of " + SHAPES + "; " + TINY + ", with and without copy-on-write sharing; mixtures of 1-5 chunks: frozen_serialize into exactly frozen_size_in_bytes bytes, frozen_view of it read in every way, misaligned addresses and wrong lengths refused",
    outside=OUT_BASE + "; big-endian hosts")
prop("C14",
    [J(UN, "untr_port", 0, 36, 60, 1, maxn=36), J(UN, "untr_native", 0, 30, 60, 1, maxn=30), J(UN, "untr_big", 0, 40, 60, 1), J(UN, "untr_frozen", 0, 72, 60, 1, maxn=36), J(UN, "untr_frozen_big", 0, 20, 60, 1)],
    [J(UN, "untr_port", 0, 64, 1800, 1, maxn=64), J(UN, "untr_native", 0, 48, 1800, 1, maxn=48), J(UN, "untr_big", 0, 40, 1800, 1, full=1), J(UN, "untr_frozen", 0, 128, 1800, 1, maxn=64), J(UN, "untr_frozen_big", 0, 20, 900, 1)],
    bounds="every byte string of up to 35 bytes given to portable_deserialize_size/_safe and frozen_view and of up to 29 bytes given to deserialize_safe (thorough: 63 and 47); headers chosen by the solver before one or two 8192-byte chunks, with lengths around the exact one and run cookies; frozen trailers chosen by the solver behind a bitset. Out-of-bounds reads, use of freed memory, leaks and undefined shifts are violations",
    outside="longer arbitrary inputs")
prop("C15",
    [J(UN, "val_small", 0, 266, 60, 1, maxn=19), J(UN, "val_big", 0, 42, 60, 1)],
    [J(UN, "val_small", 0, 406, 1800, 1, maxn=29), J(UN, "val_big", 0, 42, 900, 1)],
    bounds="every byte string of 8-18 (thorough: 8-28) bytes that portable_deserialize_safe accepts, of up to 40 values for modifying operations; a bitset, a 4096-value array and a 40-value array with cardinality and content bytes chosen by the solver; then one of 14 operations with solver-chosen arguments",
    outside="longer inputs; sequences of operations")
prop("C16",
    [J("cow.c", "cow_kernel", 0, 64, 60, 1, win=2), J("cow.c", "cow_kernel", 0, 64, 60, 1, win=2, few=1, conc=1, op2=1, name="cow_history"), J("cnt.c", "cnt_none", 0, 1, 20)],
    [J("cnt.c", "cnt_none", 0, 1, 20)] + [J("cow.c", "cow_kernel", 0, 128, 1200, 1, w=w, win=6, full=1, name="cow_kernel_w%d" % w) for w in (0, 1, 2)] + [J("cow.c", "cow_kernel", 0, 256, 3600, 1, win=3, op2=1, conc=1, name="cow_history")],
    bounds="one chunk of every one of " + SHAPES + ", copied by copy or overwrite, with and without copy-on-write (quick: six of the operations without), and one of 35 operations with solver-chosen values on either copy: updates, ranges, storage changes, set operations with a third bitmap and with the other copy, results that share chunks and are then modified; every pair of operations, one on each copy, over three of the shapes (thorough: all); the bitmaps freed in both orders, leaks and use of freed memory being violations; the reference counter of builds without atomics for every count",
    outside=OUT_BASE + "; histories of more than two operations (three with a derived result); mixing bitmaps with and without copy-on-write, which the documentation rules out")
R = "r64.c"; RB = "r64b.c"
prop("D01",
    [J(R, "q_seq", 0, 24, 60, 2, maxn=1, k=1, name="q_seq_any"), J(R, "q_seq", 0, 64, 60, 1, maxn=2, k=1, kind0=1, kinds=3, name="q_seq_one"),
     J(R, "q_seq", 0, 64, 60, 1, maxn=1, k=2, kind0=2, kinds=1, name="q_seq_two"), J(R, "q_fan", 0, 84, 60, 1, levs=2, conc=1)],
    [J(R, "q_seq", 0, 64, 900, 2, maxn=2, k=1, name="q_seq_any"), J(R, "q_seq", 0, 128, 900, 1, maxn=1, k=2, kind0=1, kinds=3, name="q_seq_two"), J(R, "q_fan", 0, 252, 600, 1)],
    bounds="histories on bitmaps of 0-1 values and one update (add, remove, their checked forms, add_many, remove_many, add_bulk/contains_bulk, remove_bulk, of_ptr; up to two further values) with any 64-bit values; of 0-2 values and one update, or 0-1 and two, with values that differ in one byte of the key, share a chunk, or lie at the end of the universe; index nodes with 1 to 256 children at every one of the six key bytes, with one more value added or removed, and emptied again",
    outside="longer histories; more than two levels of index nodes with many children")
prop("D02",
    [J(RB, "q_merge", 0, 72, 60, 1), J(RB, "q_kernel", 0, 162, 60, 1), J(RB, "q_queries", 0, 36, 60, 1), J(RB, "q_qkernel", 0, 81, 60, 1), J(RB, "q_self", 0, 24, 60, 1)],
    [J(RB, "q_merge", 0, 288, 900, 1, maxn=3, any=3), J(RB, "q_kernel", 0, 324, 600, 1, win=8, full=1), J(RB, "q_queries", 0, 64, 900, 1, maxn=3, any=4), J(RB, "q_qkernel", 0, 81, 600, 1, win=8), J(RB, "q_self", 0, 24, 60, 1)],
    bounds="two bitmaps of 0-2 (thorough: 0-3) small chunks: any 48-bit keys for up to two (thorough: three) chunks in total, otherwise keys under one high half, keys that differ in one byte, or the last chunks of the universe; every ordered pair of nine chunk shapes under one key; both operands the same bitmap",
    outside=OUT_BASE)
RR = "r64r.c"; RI = "r64i.c"; RS = "r64s.c"
KEYS64 = "any 48-bit keys for up to two chunks, otherwise keys under one high half, keys that differ in one byte, or the last chunks of the universe"
SMALL64 = "holding a solver-chosen value, two values, a short run or a full chunk"
prop("D03",
    [J(RR, "q_range", 0, 192, 60, 1), J(RR, "q_rangeq", 0, 120, 60, 1), J(RR, "q_from", 0, 48, 60, 1)],
    [J(RR, "q_range", 0, 384, 900, 1, full=1, win=4), J(RR, "q_rangeq", 0, 240, 900, 1, full=1), J(RR, "q_from", 0, 48, 900, 1, full=1)],
    bounds="add, remove, flip (pure and in place), open and closed forms, and contains_range, range_cardinality, intersect_with_range with bounds around every border of four consecutive chunks, of which any subset is present " + SMALL64 + " (some large), placed at six bases from 0 to the end of the universe; from_range with steps 1, 2, 3, 64, 20000, 65535, 65536 and large solver-chosen ones",
    outside=OUT_BASE + "; ranges over more than four chunks")
prop("D04",
    [J(RI, "q_iter", 0, 96, 60, 1), J(RI, "q_iter", 0, 96, 60, 1, args=("--fill=0",), name="q_iter_zero"), J(RI, "q_iter_shape", 0, 162, 60, 1), J(RI, "q_order", 0, 48, 60, 1), J(RI, "q_order_shape", 0, 27, 60, 1)],
    [J(RI, "q_iter", 0, 192, 1200, 1, k=4), J(RI, "q_iter", 0, 96, 900, 1, args=("--fill=0",), name="q_iter_zero"), J(RI, "q_iter_shape", 0, 162, 900, 1, win=8), J(RI, "q_order", 0, 60, 900, 1, maxn=4), J(RI, "q_order_shape", 0, 27, 900, 1, win=8)],
    bounds="bitmaps of 0-3 chunks (" + KEYS64 + "), " + SMALL64 + ": any start and two or three steps among advance, previous, move_equalorlarger, read, copy, reinit, with uninitialised memory holding 0xCD or 0; pairs of nine chunk shapes with moves into, across and out of them; rank, select, get_index, minimum, maximum, iterate and to_uint64_array",
    outside=OUT_BASE + "; longer call sequences")
prop("D05",
    [J(RS, "q_ser", 0, 80, 60, 1), J(RS, "q_ser_shape", 0, 54, 60, 1), J(RS, "q_froz_cut", 0, 128, 60, 1), J(RS, "q_froz_fan", 0, 60, 60, 1)],
    [J(RS, "q_ser", 0, 100, 1200, 1, maxn=4, any=3), J(RS, "q_ser_shape", 0, 54, 900, 1, win=8), J(RS, "q_froz_cut", 0, 384, 900, 1), J(RS, "q_froz_fan", 0, 180, 900, 1, levs=6, full=1)],
    bounds="bitmaps of 0-3 (thorough: 0-4) chunks (" + KEYS64 + "), " + SMALL64 + ", and three large chunks under three keys: portable image against the published layout, announced sizes, round trip, 24 truncations; frozen image of the shrunken bitmap: view read in every way and copied, misaligned by 1, 8, 16, 32 bytes, the last 80 truncations of images of 0-3 chunks; index nodes of 1 to 256 children with holes left by removals",
    outside=OUT_BASE + "; more chunks; big-endian hosts")
prop("D06",
    [J(RS, "q_untr", 0, 165, 60, 1, maxn=32), J(RS, "q_untr_two", 0, 150, 60, 1)],
    [J(RS, "q_untr", 0, 245, 1800, 1, maxn=48), J(RS, "q_untr_two", 0, 150, 1800, 1, any=1)],
    bounds="every byte string of up to 32 bytes (thorough: 48; from 13 bytes on the low byte of the bucket count is below 3) given to portable_deserialize_size/_safe; a first bucket of one value followed by a second one of 7 to 26 solver-chosen bytes; one bucket of two or three chunks under any keys; bitmaps that validate are then queried, updated, combined, copied and optimized",
    outside="longer arbitrary inputs; frozen_view of bytes not written by frozen_serialize, which the documentation rules out")
prop("D07",
    [J(RS, "q_store", 0, 80, 60, 1), J(RS, "q_store", 0, 45, 60, 1, shape=1, name="q_store_shape"), J(RS, "q_move32", 0, 36, 60, 1), J(RS, "q_move32", 0, 54, 60, 1, shape=1, name="q_move32_shape"), J(RS, "q_froz_fan", 0, 60, 60, 1)],
    [J(RS, "q_store", 0, 80, 900, 1), J(RS, "q_store", 0, 45, 900, 1, shape=1, win=8, name="q_store_shape"), J(RS, "q_move32", 0, 36, 900, 1), J(RS, "q_move32", 0, 54, 900, 1, shape=1, win=8, name="q_move32_shape"), J(RS, "q_froz_fan", 0, 180, 900, 1, levs=6, full=1)],
    bounds="bitmaps of 0-3 chunks (" + KEYS64 + "), " + SMALL64 + ", and three large chunks under three keys: copy, run_optimize, shrink_to_fit, statistics, then further updates on either side; move_from_roaring32 of 0-2 small or two large chunks, also when they are shared copy-on-write; index nodes of 1 to 256 children with holes left by removals",
    outside=OUT_BASE + "; more chunks")
prop("C21",
    [J("bits.c", "bits_one", 0, 90, 60, 2), J("bits.c", "bits_two", 0, 72, 60, 1)],
    [J("bits.c", "bits_one", 0, 180, 900, 2, maxn=9), J("bits.c", "bits_two", 0, 200, 900, 1, maxn=9)],
    bounds="bitsets of 0-5 (thorough: 0-9) words with every content, created in three ways (with exact, spare and garbage-filled capacity), every pair of lengths; any index and shift below 640/400 bits or above 2^40, any 64-bit right shift; every operation of bitset.h but printing",
    outside="longer bitsets; indices and left shifts between these limits (they only allocate more)")
prop("C18",
    [J("simd.c", "simd_arrays", c, 144, 60, 1) for c in (1, 3)] +
    [J("alg.c", "alg_kernel", c, N2, 60, 1, win=2, near=2, simd=3, salt=c) for c in (1, 3)] +
    [J("alg.c", "alg_kernel", c, N2, 60, 1, win=1, near=1, simd=3, inplace=1, salt=c + 1, name="alg_kernel_inplace") for c in (1, 3)] +
    [J("alg.c", "query_kernel", c, N2, 60, 1, win=1, near=1, simd=3, salt=c) for c in (1, 3)] +
    [J("alg.c", "query_equal_forms", c, 108, 60, 1, win=1) for c in (1, 3)] +
    [J(UP, "exp_kernel", c, 90, 60, 1, win=1) for c in (1, 3)] + [J(UP, "opt_kernel", c, 72, 60, 1, win=1, near=1) for c in (1, 3)],
    [J("simd.c", "simd_arrays", c, 144, 900, 2, win=6, full=1) for c in (1, 3)] +
    [J("alg.c", "alg_kernel", c, N2, 600, 1, win=6, near=6, full=1) for c in (1, 3)] +
    [J("alg.c", "alg_kernel", c, N2, 600, 1, win=6, near=6, inplace=1, name="alg_kernel_inplace") for c in (1, 3)] +
    [J("alg.c", "query_kernel", c, N2, 600, 1, win=6, near=6) for c in (1, 3)] + [J("alg.c", "query_equal_forms", c, 108, 600, 1, win=6, full=1) for c in (1, 3)] +
    [J("alg.c", "lazy_kernel", c, N2, 600, 1, win=1, near=1) for c in (1, 3)] + [J(SE, "ser_kernel", c, 90, 600, 1, win=3, near=3) for c in (1, 3)] +
    [J(UP, "exp_kernel", c, 90, 900, 1, win=4) for c in (1, 3)] + [J(UP, "opt_kernel", c, 72, 600, 1, win=8, near=8) for c in (1, 3)] + [J(UP, "rng_kernel", c, 270, 600, 1, win=3, near=3) for c in (1, 3)],
    bounds="with AVX2 and with AVX-512 reported: the set operations, counts, predicates, conversions and exports of C01, C02, C04, C09 and C10 judged against the same oracle as the portable level, over arrays of 7 to 65 values around the vector lengths and a third (thorough: all) of the ordered pairs of " + SHAPES + "; accesses outside the allocations are violations",
    outside=OUT_BASE + "; instructions are the executor's model of the intrinsics, checked against the host CPU where it has them; the dispatch decision itself")
def HK(h, e, n, t=60, **kw): return J(h, e, 0, n, t, 1, hook=1, **kw)
prop("C19",
    [HK("cow.c", "cow_kernel", 64, win=1), HK("alg.c", "alg_kernel", 162, win=1, near=1, simd=2, inplace=1), HK("alg.c", "many_merge", 40, maxb=3), HK(UP, "upd_kernel", 144, win=1), HK(UP, "rng_kernel", 270, win=1, near=1),
     HK(UP, "rng_multi", 128, win=1), HK(UP, "opt_kernel", 72, win=1, near=1), HK(UP, "off_kernel", 126, win=1), HK(SE, "ser_kernel", 90, win=1, near=1), HK(SE, "frz_kernel", 72, win=1, near=1),
     HK(UN, "untr_port", 30, maxn=30), HK(UN, "untr_native", 26, maxn=26), HK(R, "q_fan", 84, levs=2, conc=1), HK(RI, "q_iter", 96), HK(RB, "q_merge", 72, maxn=1), HK(RR, "q_range", 96), HK(RS, "q_ser", 80), HK(RS, "q_store", 80), HK(RS, "q_move32", 36),
     HK(RS, "q_move32", 54, shape=1, name="q_move32_shape"), HK(RS, "q_untr", 125, maxn=24), HK("bits.c", "bits_one", 90, maxn=3), HK("bits.c", "bits_two", 72)],
    [HK("cow.c", "cow_kernel", 128, 900, win=3, full=1), HK("alg.c", "alg_kernel", N2, 600, win=3, near=3, inplace=1), HK("alg.c", "alg_kernel", N2, 600, win=3, near=3, name="alg_kernel_pure"), HK("alg.c", "lazy_kernel", 972, 300, win=1, near=1), HK("alg.c", "many_big", 240, 300),
     HK("alg.c", "many_merge", 40, 300), HK(UP, "upd_kernel", 144, 600, win=3), HK(UP, "rng_kernel", 270, 600, win=3, near=3), HK(UP, "rng_multi", 128, 600, win=3), HK(UP, "opt_kernel", 72, 600, win=4, near=4), HK(UP, "off_kernel", 126, 600, win=4), HK(UP, "exp_kernel", 90, 600, win=2),
     HK(SE, "ser_kernel", 90, 600, win=3, near=3), HK(SE, "ser_mixed", 108, 600, win=3, near=3), HK(SE, "frz_kernel", 72, 600, win=3, near=3), HK(IT, "iter_keys", 324, 600), HK(UN, "untr_port", 40, 900, maxn=40), HK(UN, "untr_native", 36, 900, maxn=36), HK(UN, "untr_big", 40, 900),
     HK(R, "q_seq", 64, 900, maxn=1, k=2, kind0=2), HK(R, "q_fan", 252, 900), HK(RB, "q_merge", 72, 900), HK(RB, "q_kernel", 162, 900), HK(RR, "q_range", 192, 900), HK(RI, "q_iter", 96, 900), HK(RS, "q_ser", 80, 900), HK(RS, "q_store", 80, 900), HK(RS, "q_move32", 54, 900, shape=1),
     HK(RS, "q_froz_fan", 60, 900), HK(RS, "q_untr", 165, 900, maxn=32), HK("bits.c", "bits_one", 90, 600), HK("bits.c", "bits_two", 72, 600)],
    bounds="a recording hook installed while the histories explored for C02, C03, C05, C06, C10, C12-C14, C16, C17, C21 and D01-D07 run (smaller windows): set operations of all storage forms, updates, ranges, conversions, copies with and without sharing, readers that accept or refuse, 64-bit bitmaps and iterators, plain bitsets. Every block is tagged with the function that gave it out; releasing it through another one, a block left over, or an allocation made behind the hook is a violation",
    outside=OUT_BASE + "; hooks changed while objects are alive, which the documentation rules out")
prop("C20",
    [HK("fault.c", "fault_copy", 144), HK("fault.c", "fault_overwrite", 144), HK("fault.c", "fault_read", 252), HK("fault.c", "fault_create", 10)],
    [HK("fault.c", "fault_copy", 144, 600), HK("fault.c", "fault_overwrite", 144, 600), HK("fault.c", "fault_read", 252, 600), HK("fault.c", "fault_create", 10, 600)]
    + [J("fault.c", e, 3, n, 600, 1, hook=1) for e, n in (("fault_copy", 144), ("fault_read", 252))],
    bounds="any one allocation (or none) of the call failing, chosen by the solver: copy and overwrite of bitmaps of 0-3 chunks in nine mixtures of " + SHAPES + ", with and without copy-on-write, some chunks already shared, onto destinations of 0-2 chunks, shared or not; every reader (portable safe, plain and frozen, native container form, frozen_view, truncated image) of such images; creation of bitmaps, iterators and bitsets, bitset copy, grow and resize, to_bitset",
    outside="operations that have no way to report failure (add, set operations, run_optimize ...); several failures in one call; the 64-bit bitmap, whose code states that failed allocations are not handled")
TH = dict(replay="engine")
prop("C22",
    [J("thr.c", "thr_kernel", 0, 60, 120, 1, ("--preempt=2",))],
    [J("thr.c", "thr_kernel", 0, 240, 3600, 1, ("--preempt=2",), full=1), J("thr.c", "thr_kernel", 0, 240, 3600, 1, ("--preempt=4",), name="thr_kernel_preempt4")],
    bounds="two threads, each with one of two or three copies of a bitmap of two shared chunks (five mixtures of array, run, bitset and full), each running one of 37 operations (reads, iteration, updates, ranges, storage changes, copy, overwrite, in-place and pure set operations, unions of many, serialization, freeing) and then keeping, freeing or further modifying what it has; every pair of operations once (thorough: with every chunk mixture and ending), one solver-chosen element; every schedule of the threads' atomic operations with at most two preemptions (thorough: also four); every other access watched by a happens-before monitor that honours the memory orderings of the atomics",
    outside="more than two threads or one operation per thread; more preemptions; schedules that only weak memory allows are covered through the happens-before monitor, not by executing them; builds with the C++ or Windows atomics",
    tech="; schedules of atomic operations explored exhaustively up to a preemption bound, with happens-before race detection")
CELLS = "sets made of twelve cells of 0-2 values at four places (bottom, two adjacent blocks across the %s boundary, top), ten different ways of filling them per operand, four patterns of cell lengths, one block displaced by a solver-chosen 0-8"
prop("E01",
    [J("cxx.cpp", "x_ops32", 0, 16, 60, 2), J("cxx.cpp", "x_upd32", 0, 40, 90, 1), J("cxx.cpp", "x_query32", 0, 40, 90, 1), J("cxx.cpp", "x_iter32", 0, 24, 60, 1), J("cxx.cpp", "x_value32", 0, 40, 90, 1)],
    [J("cxx.cpp", "x_ops32", 0, 80, 900, 2, masks=10), J("cxx.cpp", "x_ops32", 0, 80, 900, 2, masks=10, opt=1, name="x_ops32_runs"), J("cxx.cpp", "x_upd32", 0, 80, 900, 1), J("cxx.cpp", "x_query32", 0, 80, 900, 1), J("cxx.cpp", "x_iter32", 0, 80, 900, 1), J("cxx.cpp", "x_value32", 0, 80, 900, 1), J("cxs.cpp", "x_ser32", 0, 80, 900, 1)],
    bounds=CELLS % "2^16" + "; every operator with an operand and with itself, unions of 0 and 4; 17 kinds of update over every cell and over ranges across the boundary; every query and iterator operation with arguments within 12-24 of each place; copies, moves, swaps, self-assignment, with and without copy-on-write, followed by eight kinds of change",
    outside="toString and printf; larger sets through the wrapper (the C functions it calls are the subject of C01-C22); moving an object to itself; mixing copy-on-write and other bitmaps (documented as unsafe)")
prop("E02",
    [J("cxx.cpp", "x_ops64", 0, 40, 120, 2), J("cxx.cpp", "x_upd64", 0, 40, 90, 1), J("cxx.cpp", "x_query64", 0, 16, 60, 1), J("cxx.cpp", "x_iter64", 0, 24, 60, 1), J("cxx.cpp", "x_value64", 0, 40, 90, 1), J("cxx.cpp", "x_wide64", 0, 8, 120, 0), J("cxx.cpp", "x_edges64", 0, 8, 120, 1, full=1)],
    [J("cxx.cpp", "x_ops64", 0, 80, 900, 2, full=1), J("cxx.cpp", "x_ops64", 0, 80, 900, 2, opt=1, name="x_ops64_runs"), J("cxx.cpp", "x_upd64", 0, 80, 900, 1, full=1), J("cxx.cpp", "x_query64", 0, 80, 900, 1), J("cxx.cpp", "x_iter64", 0, 80, 900, 1), J("cxx.cpp", "x_value64", 0, 80, 900, 1), J("cxx.cpp", "x_wide64", 0, 8, 900, 1, full=1), J("cxx.cpp", "x_edges64", 0, 8, 900, 1, full=1)],
    bounds=CELLS % "2^32" + "; with no, or up to four, inner maps that are present but empty; operators, unions of 0 and 4, 17 kinds of update including the 32-bit overloads, queries, iterators, copies and moves as for E01; ranges that cover one whole inner map and parts of its neighbours, their ends at solver-chosen distances 1-9; ranges between any two of six inner maps, each end 0-4 away from the first or last value of an inner map",
    outside="toString and printf; more than one whole inner map; a map holding all 2^64 values; the balancing of std::map (its tree is linked without rotations in the executor)")
prop("E03",
    [J("cxs.cpp", "x_ser64", 0, 40, 90, 2), J("cxs.cpp", "x_ser32", 0, 24, 60, 1), J("cxs.cpp", "x_bytes64", 0, 16, 90, 1, max=44)],
    [J("cxs.cpp", "x_ser64", 0, 80, 900, 4), J("cxs.cpp", "x_ser32", 0, 80, 900, 2), J("cxs.cpp", "x_bytes64", 0, 80, 1800, 1, max=56)],
    bounds=CELLS % "2^32 (and 2^16)" + ", in plain, run and needlessly run-encoded form, with empty inner maps; both write forms, read, readSafe, every truncation, frozen views of both kinds, exchange with the C readers and writers in both directions; every byte string of 8 to 44 bytes (thorough: 56) with a small map count and any of five leading cookies",
    outside="larger maps; longer arbitrary inputs (the 32-bit readers used inside are C13's subject); frozen views of damaged bytes")
for k in ("quick", "thorough"):
    for j in PROPS["C22"][k]: j["replay"] = "engine"
FAN = "2-50 chunks whose keys differ in one byte (1-49 children under an index node, bytes spread, scattered or dense from either end) plus neighbours under the node above"
W64 = "wide64.c"
def also2(pid, bounds, quick, thorough):
    p = PROPS[pid]; p["quick"] = list(p["quick"]) + quick; p["thorough"] = list(p["thorough"]) + thorough; p["bounds"] += "; " + bounds
also2("D02", FAN + ", against a chunk with any byte there, another such bitmap on the same or another level",
    [J(W64, "fan_alg", 0, 144, 200, 1, pats=1, levs=1), J(W64, "fan_alg", 0, 144, 200, 1, pats=1, levs=1, query=1, name="fan_query")], [J(W64, "fan_alg", 0, 288, 1200, 1, pats=2, levs=2, ds=3, emax=4, nf=8)])
also2("D03", FAN + ", removals and counts from any byte there to a chunk in the middle or at the end",
    [J(W64, "fan_range", 0, 18, 200, 1, pats=1, levs=1)], [J(W64, "fan_range", 0, 144, 1200, 1, pats=2, levs=2, ds=5, ats=3, xks=3, nf=8)])
also2("D04", FAN + ", a seek to any byte there or next to it one level above or below, then steps, a read or a second seek; rank, get_index, select there",
    [J(W64, "fan_iter", 0, 120, 200, 1)], [J(W64, "fan_iter", 0, 960, 1200, 1, pats=4, levs=6, nf=8)])
# wall seconds of the quick checks on 8 idle cores, for the record
# bitmaps of many chunks (wide.c): key searches, header bit sets of several bytes, growing key tables
def also(pid, bounds, *jobs):
    p = PROPS[pid]
    for tier in ("quick", "thorough"): p[tier] = list(p[tier]) + [dict(j) for j in jobs]
    p["bounds"] += "; " + bounds
WIDE = "5, 12 and 33 chunks (keys dense from 0, spaced up to 65535, quadratically spaced)"
also("C01", "a bitmap of " + WIDE + " with a bitmap of one value or one value and a full chunk, with solver-chosen keys, either way round", J("wide.c", "wide_alg", 0, 36, 200, 1, name="wide_alg", inplace=0))
also("C02", "a bitmap of " + WIDE + " with a bitmap of one value or one value and a full chunk, with solver-chosen keys, either way round", J("wide.c", "wide_alg", 0, 36, 200, 1, name="wide_alg", inplace=1))
also("C11", "results on bitmaps of " + WIDE, J("wide.c", "wide_alg", 0, 72, 200, 1, name="wide_alg_valid", valid=1))
also("C03", "or_many, or_many_heap and xor_many of 4 to 10 bitmaps of 1-4 chunks, copy-on-write or not, with up to four solver-chosen values", J("wide.c", "wide_many", 0, 72, 200, 1))
also("C04", "a bitmap of " + WIDE + " against one or two chunks with solver-chosen keys", J("wide.c", "wide_query", 0, 36, 200, 1))
for pid_ in ("C05", "C07"): also(pid_, "single, bulk and many updates, look-ups, rank and select on " + WIDE + " with solver-chosen key and value", J("wide.c", "wide_point", 0, 81, 200, 1))
also("C05", "bitmaps grown one chunk at a time to 4, 9, 17 and 66 chunks, forwards and backwards, then updated anywhere", J("wide.c", "wide_grow", 0, 24, 200, 1))
also("C16", "bitmaps grown one chunk at a time to 4, 9, 17 and 66 chunks", J("wide.c", "wide_grow", 0, 24, 200, 1))
also("C06", "ranges across 5, 12 and 20 chunks, from near the content of one chunk to near that of another or the gap next to it", J("wide.c", "wide_range", 0, 54, 200, 1))
also("C06", "range and single updates on a run chunk of 2046, 2047, 2048 and 2100 runs, with and without a run up to 65535, both ends in one of three windows of 12", J("wide.c", "many_runs", 0, 36, 200, 1))
also("C08", "two iterator moves on " + WIDE + ", seeking a solver-chosen value each time or stepping or reading after it", J("wide.c", "wide_iter", 0, 72, 200, 1))
for pid_, k_ in (("C12", 0), ("C13", 1)): also(pid_, "3, 4, 8, 9, 16 and 17 chunks of which each single one is or is not a run, or is a bitset", *[J("wide.c", "wide_ser", 0, 18, 200, 1, name="wide_ser_p%d" % q_, part=q_) for q_ in ((0, 1, 2), (3,))[k_]])
SECONDS = dict(C01=45, C02=60, C03=50, C04=25, C05=39, C06=50, C07=12, C08=38, C09=21, C10=8, C11=70, C12=20, C13=18, C14=30, C15=24, C16=35, C17=8, C18=69, C19=76, C20=17, C21=10, C22=41, D01=38, D02=49, D03=18, D04=20, D05=13, D06=29, D07=14, E01=53, E02=69, E03=25)
