#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that the prose stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

R='src/roaring.c'; RA='src/roaring_array.c'; C='src/containers/'
IN=['inputs']; CFG=['inputs','configurations']; HI=['inputs','histories']

prop('C01','Binary set operations return exactly the mathematical result',
 "For any two 32-bit bitmaps, roaring_bitmap_and, _or, _xor and _andnot return a bitmap that contains a value exactly when the corresponding Boolean combination of membership in the two inputs holds, and whose reported cardinality is the number of such values. This holds however each 64K chunk of the inputs happens to be stored (sorted array, bitset, run list, shared copy), including chunks present on one side only, empty and completely full chunks. The inputs are unchanged.",
 CFG,"all pairs of bitmaps, all storage forms of each chunk, each CPU dispatch level",
 "Unit tests try fixed element patterns; there are 9 storage pairings per operator, each with thresholds (4096 elements, 2047 runs, full chunks) at which the result changes representation, and SIMD variants of each kernel.",
 [R,C+'mixed_union.c',C+'mixed_intersection.c',C+'mixed_xor.c',C+'mixed_andnot.c',C+'array.c',C+'bitset.c',C+'run.c','src/array_util.c'],
 [('container_and/or/xor/andnot dispatch','include/roaring/containers/containers.h'),('key merge loops','src/roaring.c')],
 ['roaring_bitmap_contains','roaring_bitmap_get_cardinality','roaring_bitmap_to_uint32_array'])
prop('C02','In-place set operations equal their pure counterparts',
 "roaring_bitmap_and_inplace, _or_inplace, _xor_inplace and _andnot_inplace leave in the first bitmap exactly the set that the corresponding non-modifying operation would return, and leave the second bitmap's contents unchanged. This holds for every combination of storage forms of the chunks on both sides and for bitmaps whose chunks are shared copy-on-write.",
 CFG,"all pairs of bitmaps and storage forms, each CPU dispatch level",
 "In-place kernels reuse, grow or replace the left container in place and have separate code per storage pairing; tests sample a few of them.",
 [R,C+'mixed_union.c',C+'mixed_intersection.c',C+'mixed_xor.c',C+'mixed_andnot.c'],
 [('container_iand/ior/ixor/iandnot','include/roaring/containers/containers.h')],
 ['roaring_bitmap_to_uint32_array','roaring_bitmap_get_cardinality'])
prop('C03','Lazy and many-way unions and xors equal pairwise folding',
 "A chain of roaring_bitmap_lazy_or / lazy_or_inplace / lazy_xor / lazy_xor_inplace calls followed by roaring_bitmap_repair_after_lazy yields the exact union (symmetric difference), with exact cardinality. roaring_bitmap_or_many, _or_many_heap and _xor_many return the exact union (xor) of all the given bitmaps, for any number of inputs including zero and one, without modifying any of them.",
 CFG,"all tuples of input bitmaps and storage forms",
 "Lazy results carry an unknown cardinality and delayed conversions through several kernels; tests run a few fixed data sets.",
 [R,'src/roaring_priority_queue.c',C+'mixed_union.c',C+'mixed_xor.c',C+'convert.c'],
 [('container_lazy_or / container_repair_after_lazy','include/roaring/containers/containers.h'),('priority queue','src/roaring_priority_queue.c')],
 ['roaring_bitmap_to_uint32_array','roaring_bitmap_get_cardinality'])
prop('C04','Counting and predicate queries agree with the materialised result',
 "roaring_bitmap_and_cardinality, or_/xor_/andnot_cardinality equal the cardinality of the corresponding result; roaring_bitmap_intersect is true exactly when the intersection is non-empty; roaring_bitmap_equals, is_subset and is_strict_subset are exactly set equality, inclusion and proper inclusion; jaccard_index is the ratio of the intersection and union cardinalities. None of them depends on how the chunks are stored.",
 CFG,"all pairs of bitmaps and storage forms",
 "Each predicate has its own hand-written kernel per storage pairing with early exits that a sampled test rarely reaches.",
 [R,C+'mixed_intersection.c',C+'mixed_subset.c',C+'mixed_equal.c',C+'run.c',C+'array.c',C+'bitset.c'],
 [('container_is_subset/equals/intersect/and_cardinality','include/roaring/containers/containers.h')],
 ['return values'])
prop('C05','Adding and removing values keeps exactly the intended set',
 "After any sequence of add, add_checked, add_many, add_bulk, remove, remove_checked, remove_many and clear calls, contains and contains_bulk answer true exactly for the values whose last update was an addition, and get_cardinality and is_empty agree with that set. add_checked and remove_checked return true exactly when the set changed. This holds across every storage conversion the updates trigger.",
 HI,"all update sequences and values",
 "Conversions happen only at particular cardinalities (4096/4097) and shapes; the bulk context caches a position that must survive any key change.",
 [R,C+'containers.c',C+'array.c',C+'bitset.c',C+'run.c','include/roaring/containers/containers.h'],
 [('container_add/remove','include/roaring/containers/containers.h'),('roaring_bulk_context_t','src/roaring.c')],
 ['roaring_bitmap_contains','roaring_bitmap_get_cardinality','return values'])
prop('C06','Range operations treat every half-open or closed range exactly',
 "add_range(_closed), remove_range(_closed), flip, flip_inplace, from_range, contains_range(_closed), range_cardinality(_closed) and intersect_with_range behave exactly as the element-by-element definition over the given range for every pair of bounds, including empty ranges, single values, chunk boundaries, and bounds at and beyond 2^32. Values outside the range keep their membership, and every call terminates.",
 IN,"all bounds, all bitmaps and storage forms",
 "The bounds space is 2^64 pairs; the code splits at chunk borders with many off-by-one opportunities and truncates 64-bit bounds to 32 bits.",
 [R,'include/roaring/roaring.h',C+'containers.c',C+'mixed_negation.c',C+'run.c',C+'bitset.c','include/roaring/bitset_util.h'],
 [('container_add_range/remove_range/not_range/contains_range','include/roaring/containers/containers.h'),('range guards','include/roaring/roaring.h')],
 ['roaring_bitmap_contains','roaring_bitmap_range_cardinality','return values'])
prop('C07','Rank, select, index, minimum and maximum are mutually exact',
 "For every bitmap, rank(x) is the number of elements not greater than x, select(k) is the k-th smallest element and fails exactly when k is out of range, get_index(x) is the position of x or -1 when absent, rank_many agrees with rank for every sorted query list, and minimum and maximum are the extreme elements (UINT32_MAX and 0 on an empty bitmap). get_cardinality equals the number of elements.",
 IN,"all bitmaps and storage forms, all query values and query lists",
 "Queries are tested for a handful of data sets; chunk borders, absent keys and queries past the last chunk multiply per storage form.",
 [R,C+'array.c',C+'bitset.c',C+'run.c','include/roaring/containers/containers.h'],
 [('container_rank/rank_many/select/get_index','include/roaring/containers/containers.h')],
 ['return values'])
prop('C08','Iterators visit exactly the elements, in order, in both directions',
 "A uint32 iterator created at the first (last) element and repeatedly advanced (moved back) yields every element exactly once in increasing (decreasing) order and then reports no value; move_equalorlarger lands on the smallest element not below the target; read returns the next elements in order and skip/skip_backward move by the count they return. Mixing these calls in any order always leaves the iterator on the element a sorted list of the bitmap would give, including stepping off one end and back.",
 HI,"all bitmaps and storage forms, all sequences of iterator calls",
 "Iterator state is per storage form with word and run positions; combinations of direction changes, chunk crossings and partial reads are not enumerable by tests.",
 [R,C+'containers.c'],
 [('container_iterator_*','src/containers/containers.c'),('roaring_uint32_iterator_*','src/roaring.c')],
 ['iterator current_value and has_value','return values'])
prop('C09','Bulk exports list exactly the elements in increasing order',
 "to_uint32_array writes exactly the elements in increasing order; range_uint32_array writes exactly the elements from position offset, at most limit of them; roaring_iterate and roaring_iterate64 call back once per element in order and stop when told to; to_bitset sets exactly the bits of the elements. Nothing is written beyond the documented output size and the bitmap is not modified.",
 CFG,"all bitmaps and storage forms, all offsets and limits",
 "SIMD decoders write in blocks near the end of the output; offsets and limits cut chunks at arbitrary positions.",
 [R,RA,C+'bitset.c',C+'array.c',C+'run.c','src/bitset_util.c'],
 [('container_to_uint32_array','include/roaring/containers/containers.h'),('ra_range_uint32_array','src/roaring_array.c'),('bitset_extract_setbits_*','src/bitset_util.c')],
 ['output buffers','callback sequence'])
prop('C10','Storage optimisation never changes the set',
 "run_optimize, remove_run_compression, shrink_to_fit and copying leave the set unchanged, and every later query or update on the optimised bitmap behaves as on the original. run_optimize's result says whether run storage is in use, remove_run_compression leaves none, and the statistics reported for the bitmap agree with its contents (cardinality, minimum, maximum, container counts, values per container kind).",
 HI,"all bitmaps and storage forms",
 "Conversion thresholds compare serialized sizes for every cardinality and run count; tests only sit on a few of them.",
 [R,C+'convert.c',C+'run.c',C+'containers.c'],
 [('convert_run_optimize / convert_to_efficient_container','src/containers/convert.c')],
 ['roaring_bitmap_to_uint32_array','roaring_bitmap_statistics'])
prop('C11','Every operation leaves an internally consistent bitmap',
 "Starting from bitmaps built through the API, after any operation that creates or modifies a bitmap (updates, range updates, flips, set algebra in pure, in-place and repaired lazy form, optimisation, offsetting, deserialization of the library's own output), roaring_bitmap_internal_validate returns true for every bitmap involved. In particular chunk keys strictly increase, no chunk is empty, cached cardinalities are exact, arrays are sorted and within their size limit and runs are disjoint and non-adjacent.",
 HI,"all operation histories from API-built bitmaps",
 "The validator is only run by tests on specific data; a malformed container often still answers the next query correctly and corrupts a later one.",
 [R,RA,C+'containers.c',C+'array.c',C+'bitset.c',C+'run.c'],
 [('roaring_bitmap_internal_validate','src/roaring.c')],
 ['roaring_bitmap_internal_validate'])
prop('C12','Serialization round-trips and its size is exact',
 "For every bitmap, portable_serialize and serialize write exactly the number of bytes announced by portable_size_in_bytes and size_in_bytes; every matching deserializer (plain, safe, portable_deserialize_size on that buffer, deserialize_frozen view of the portable form) accepts these bytes, consumes exactly that many and reproduces an equal bitmap. The portable bytes follow the published Roaring format specification. Truncating the buffer at any byte makes the length-checked readers refuse it.",
 IN,"all bitmaps and storage forms, all truncation points",
 "The header layout depends on chunk count (offsets omitted below 4 with runs), on which chunks are runs, and on the array/bitset threshold; tests cover a few files.",
 [R,RA,C+'array.c',C+'bitset.c',C+'run.c'],
 [('ra_portable_serialize / ra_portable_deserialize / ra_portable_deserialize_size','src/roaring_array.c')],
 ['serialized bytes','returned sizes','roaring_bitmap_equals'])
prop('C13','Frozen views show the frozen bitmap exactly',
 "For every bitmap, frozen_serialize writes exactly frozen_size_in_bytes bytes, frozen_view over those bytes yields a bitmap equal to the original for all read operations, and reading it never writes to or looks outside the buffer. frozen_view refuses a misaligned buffer and any length that contradicts the sizes recorded at the end of the buffer.",
 IN,"all bitmaps and storage forms, all wrong lengths",
 "The frozen layout sorts payloads by kind with a trailing header; each mix of kinds gives a different layout.",
 [R],
 [('roaring_bitmap_frozen_serialize / frozen_view','src/roaring.c')],
 ['frozen bytes','roaring_bitmap_equals','memory accesses'])
prop('C14','Reading untrusted bytes never touches memory outside the buffer',
 "For every buffer content and every length n, portable_deserialize_size, portable_deserialize_safe, deserialize_safe and frozen_view read only the n bytes given, perform no invalid memory access, terminate, leak nothing, and return either NULL (0) or a bitmap that can be freed. When portable_deserialize_size accepts a buffer, the reported size is at most n, and when portable_deserialize_safe accepts a buffer, so does portable_deserialize_size.",
 IN,"all byte strings up to the stated length",
 "Fuzzing samples byte strings; every header field interacts with the remaining length at each parsing step.",
 [R,RA],
 [('remaining-bytes accounting','src/roaring_array.c ra_portable_deserialize'),('roaring_bitmap_frozen_view','src/roaring.c')],
 ['memory accesses','return values'])
prop('C15','A deserialized bitmap that validates is safe and coherent to use',
 "If a bitmap obtained from arbitrary bytes with portable_deserialize_safe passes roaring_bitmap_internal_validate, then querying, iterating, updating, combining, re-serializing and freeing it is memory-safe, its reported cardinality equals the number of elements it enumerates, and serializing it again yields a buffer that deserializes to an equal bitmap. The validator rejects out-of-order or duplicated keys, unsorted arrays, wrong cardinalities, and overlapping or overflowing runs.",
 IN,"all byte strings up to the stated length that are accepted and validated",
 "Only a few malformed files are in the test suite; the validator must reject every malformed combination.",
 [R,RA,C+'containers.c',C+'array.c',C+'bitset.c',C+'run.c'],
 [('container_internal_validate','src/containers/containers.c')],
 ['roaring_bitmap_internal_validate','queries'])
prop('C16','Copies are independent, with or without copy-on-write',
 "After roaring_bitmap_copy or roaring_bitmap_overwrite, any sequence of modifications to one of the two bitmaps never changes what the other contains, whether copy-on-write is enabled on all bitmaps involved or on none (the documentation rules out mixing). Freeing the bitmaps in any order releases each piece of memory exactly once.",
 HI,"all histories of copies and modifications over copy-on-write and plain bitmaps",
 "A single kernel that forgets to unshare a container corrupts the sibling; tests touch only some operations under copy-on-write.",
 [R,RA,C+'containers.c','include/roaring/containers/containers.h'],
 [('get_copy_of_container / shared_container_extract_copy / ra_unshare_container_at_index','src/containers/containers.c, src/roaring_array.c')],
 ['roaring_bitmap_to_uint32_array on both copies','allocator balance'])
prop('C17','Offsetting shifts every element and drops those out of range',
 "roaring_bitmap_add_offset(r, k) returns exactly { x + k : x in r, 0 <= x + k < 2^32 } for every signed 64-bit k and every storage form, and leaves r unchanged.",
 IN,"all offsets, all bitmaps and storage forms",
 "Each container is split across two destination chunks at an arbitrary bit position; tests use a few offsets.",
 [R,C+'array.c',C+'bitset.c',C+'run.c'],
 [('container_add_offset','include/roaring/containers/containers.h')],
 ['roaring_bitmap_to_uint32_array'])
prop('C18','Every CPU dispatch level computes the same results',
 "Whichever instruction-set level is selected at run time (portable, AVX2, AVX-512), every operation produces the same sets, counts, orderings and output bytes as the portable code for the same inputs, and never accesses memory beyond the inputs' and outputs' documented extents.",
 CFG,"all inputs to the vectorised kernels, all dispatch levels",
 "The test run exercises the one level the host CPU selects; vector kernels have block, tail and overlap cases that depend on lengths and values.",
 ['src/array_util.c','src/bitset_util.c',C+'array.c',C+'bitset.c',C+'run.c',C+'convert.c','src/isadetection.c'],
 [('croaring_hardware_support dispatch','src/isadetection.c'),('SIMD kernels','src/array_util.c, src/bitset_util.c, src/containers/bitset.c')],
 ['return values','output buffers'])
prop('C19','All memory goes through the memory hook and is released exactly once',
 "Every allocation made by the library is obtained from the installed roaring_memory_t functions and released exactly once through the matching function of the same hook (aligned blocks only through aligned_free), by the time all objects returned to the caller are freed. No operation frees or reallocates memory that did not come from the hook.",
 HI,"all operations and storage forms, all bitmaps",
 "With the default hook a plain free() of hook memory is invisible; the leak and mismatch paths hang on particular conversions.",
 ['src/memory.c',R,RA,'src/bitset.c',C+'array.c',C+'bitset.c',C+'run.c','src/art/art.c','src/roaring64.c'],
 [('roaring_malloc/.../roaring_aligned_free','src/memory.c')],
 ['hook call log'])
prop('C20','A failed allocation never corrupts memory',
 "When any single allocation during creating, copying, overwriting, deserializing (portable format, or the native format's container form) or frozen-viewing a 32-bit bitmap, creating or copying its iterator, or creating, copying, growing or filling a plain bitset fails, the call reports failure (NULL or false) or succeeds without it, performs no invalid memory access, and leaks nothing. Every object passed in keeps its contents, stays valid and can be used and freed; a failed overwrite leaves the destination valid.",
 ['fault_sequences','inputs'],"which allocation of the call fails, all bitmaps and storage forms",
 "Tests never make allocations fail at chosen points.",
 [R,RA,C+'array.c',C+'bitset.c',C+'run.c','src/memory.c'],
 [('NULL checks and cleanup','src/roaring_array.c ra_overwrite, ra_portable_deserialize; container *_clone')],
 ['return values','memory accesses','allocator balance'])
prop('C21','The plain bitset API is exact',
 "For every pair of bitsets (of equal or different lengths), set, get, set_to_value, count, minimum, maximum, union, intersection, difference and symmetric difference (in place and counted), contains_all, disjoint, intersect, shifts, resize/grow/trim and the next-set-bit iterations behave exactly as on the abstract set of bit positions and never access memory outside the bitsets.",
 IN,"all bit patterns, lengths, indices and shift amounts",
 "Different lengths, unaligned shifts and word borders combine beyond the sampled cases.",
 ['src/bitset.c','include/roaring/bitset/bitset.h'],
 [('word loops','src/bitset.c'),('bitset_set/get growth','include/roaring/bitset/bitset.h')],
 ['return values','bitset words'])
prop('C22','Copy-on-write copies may be used from different threads',
 "When two threads each own a different bitmap that shares containers copy-on-write, any interleaving of their reading, modifying, copying and freeing of their own bitmap is free of data races on the shared containers, frees every container exactly once, and leaves each bitmap with the contents its own thread gave it.",
 ['schedules'],"all interleavings of the two threads' synchronisation operations",
 "A reference-count race needs a particular interleaving between the count test and the copy or free.",
 [C+'containers.c','include/roaring/portability.h'],
 [('croaring_refcount_inc/dec','include/roaring/portability.h'),('shared_container_extract_copy/free','src/containers/containers.c')],
 ['memory accesses','final contents'])

R64='src/roaring64.c'; ART='src/art/art.c'
prop('D01','64-bit bitmaps keep exactly the intended set under updates',
 "After any sequence of roaring64 add, add_checked, add_many, add_bulk, remove, remove_checked, remove_many, remove_bulk and clear calls, contains and contains_bulk answer exactly for the current set, checked variants return whether the set changed, cardinality and emptiness agree, and internal_validate holds. This holds whatever prefixes the 64-bit values share and however many distinct high parts there are.",
 HI,"all update sequences over 64-bit values",
 "The radix tree splits prefixes and grows/shrinks nodes (4/16/48/256) only for particular key sets.",
 [R64,ART],
 [('art_insert/art_erase/art_find, node growth and shrink, prefix split','src/art/art.c')],
 ['roaring64_bitmap_contains','roaring64_bitmap_get_cardinality','roaring64_bitmap_internal_validate'])
prop('D02','64-bit set algebra and predicates are exact',
 "roaring64 and, or, xor, andnot (pure and in place) produce exactly the set combination with exact cardinality and leave the other operand unchanged; their _cardinality variants, intersect, equals, is_subset, is_strict_subset and jaccard_index agree with those results.",
 IN,"all pairs of 64-bit bitmaps",
 "Two radix trees are merged by iterators over differing shapes, with deletions while iterating.",
 [R64,ART],[('two-iterator merges','src/roaring64.c')],['roaring64_bitmap_to_uint64_array','return values'])
prop('D03','64-bit range operations are exact at every boundary',
 "roaring64 from_range, add_range(_closed), remove_range(_closed), flip(_closed)(_inplace), contains_range, range_cardinality(_closed) and intersect_with_range behave exactly as the element-wise definition for all 64-bit bounds, including ranges crossing several 64K chunks, ending at the largest 64-bit value, empty ranges and single values.",
 IN,"all 64-bit bounds and bitmaps",
 "Bounds near 2^48 groups and UINT64_MAX overflow easily and are sampled sparsely.",
 [R64,ART],[('range loops over high 48 bits','src/roaring64.c')],['return values','roaring64_bitmap_contains'])
prop('D04','64-bit iteration, export and order statistics are exact and ordered',
 "roaring64 iterators (first/last, advance, previous, move_equalorlarger, read, copy, reinit) in any sequence stay on the element the sorted set dictates; to_uint64_array and iterate list exactly the elements in increasing order; rank, select, get_index, minimum, maximum and cardinality agree with that list.",
 HI,"all 64-bit bitmaps and iterator call sequences",
 "Tree iterators climb and descend through differently sized nodes; lower-bound seeks have many structural cases.",
 [R64,ART],[('art_iterator_next/prev/lower_bound','src/art/art.c')],['iterator values','return values'])
prop('D05','64-bit serialization round-trips, portable and frozen',
 "For every 64-bit bitmap, portable_serialize writes exactly portable_size_in_bytes bytes which deserialize_safe and deserialize_size accept in full and which reproduce an equal bitmap, and every truncation is refused. frozen_serialize after shrink_to_fit writes exactly frozen_size_in_bytes bytes whose frozen_view (at the required alignment) equals the original; misaligned buffers and buffers that lack any of the data are refused without reading beyond them.",
 IN,"all 64-bit bitmaps, all truncation points",
 "Buckets, container layout and frozen tree arrays vary with the key set.",
 [R64,ART],[('portable_*, frozen_*','src/roaring64.c'),('art_serialize/art_frozen_view','src/art/art.c')],['bytes','roaring64_bitmap_equals'])
prop('D06','Reading untrusted 64-bit serialized bytes is memory-safe',
 "For every buffer content and length n, roaring64 portable_deserialize_size and portable_deserialize_safe read only those n bytes, make no invalid access, leak nothing, and either fail or return a bitmap that can be freed; a bitmap so obtained that passes internal_validate is safe and coherent to query.",
 IN,"all byte strings up to the stated length",
 "Bucket counts, keys and nested 32-bit payload sizes are all attacker-controlled.",
 [R64,RA],[('roaring64_bitmap_portable_deserialize_safe','src/roaring64.c')],['memory accesses','return values'])
prop('D07','64-bit copies, conversion and optimisation preserve the set',
 "roaring64_bitmap_copy, move_from_roaring32, run_optimize and shrink_to_fit preserve the set exactly; copies are independent of later changes to the original; statistics agree with the contents; and freeing everything releases all memory exactly once.",
 HI,"all 64-bit bitmaps and update histories",
 "Node and container pools are compacted by index; stale references only show for particular histories.",
 [R64,ART],[('art_copy, art_shrink_to_fit, free lists','src/art/art.c')],['roaring64_bitmap_to_uint64_array','allocator balance'])

H='cpp/roaring.hh'; H64='cpp/roaring64map.hh'
prop('E01','The C++ Roaring class has exact value semantics',
 "Every roaring::Roaring operation (updates, range updates, operators and their assignment forms, comparisons, queries, iteration, bulk context, serialization) gives the same result as the set it represents; copies and assignments (including self-assignment) are independent values, moves transfer the set and leave a reusable object, and destroying all objects releases all memory exactly once.",
 HI,"all sequences of wrapper operations",
 "The wrapper moves raw structures and ownership around; wrong-argument or double-ownership slips only show on particular call sequences.",
 [H],[('Roaring class','cpp/roaring.hh')],['results of the class methods'])
prop('E02','The C++ Roaring64Map behaves as a set of 64-bit integers',
 "After any sequence of Roaring64Map updates, range operations, set operators (pure and in place) and bulk/fast unions, contains, cardinality, isEmpty, isFull, comparison, subset, rank, select, getIndex, minimum, maximum, iteration (forwards, backwards, move), toUint64Array and flips agree with the mathematical set of 64-bit values, even when some inner 32-bit maps are empty or full.",
 HI,"all sequences of operations over 64-bit values",
 "Inner maps may become empty yet remain, ranges span several high halves, and subtraction/intersection walk two ordered maps.",
 [H64],[('map of Roaring by high 32 bits','cpp/roaring64map.hh')],['results of the class methods'])
prop('E03','Roaring64Map serialization round-trips and rejects truncation',
 "For every Roaring64Map, write fills exactly getSizeInBytes bytes (portable or not), read, readSafe and the frozen forms reproduce an equal map from them, the portable bytes are interchangeable with the C 64-bit portable format, and readSafe refuses every truncated buffer without touching memory outside it.",
 IN,"all maps, all truncation points, all short byte strings",
 "Size and layout depend on how many inner maps exist and on each of their storage forms.",
 [H64,R64],[('Roaring64Map::write/read/readSafe/frozenView','cpp/roaring64map.hh')],['bytes','equality'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
