#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, with bounds from registry.py, findings from known_findings.json, planted bugs from seeded/."""
import json, os, sys, glob
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, H)
import registry
HEAD = r"""# How the properties are decided

(Generated by tools/gen_design.py from registry.py, known_findings.json and seeded/; edit there.)

## The method

Every property is decided in the same way: the sources under `/repo/src`, `/repo/include` and `/repo/cpp` are compiled with clang 18 to
LLVM bitcode on every run, linked with a harness (`harness/*.c`, `*.cpp`), and executed **symbolically** by `engine/` (built by `make`,
linking the installed libLLVM and libz3). Values the harness declares with `SYM8/16/32/64`, `PICK` or `sym_bytes_` are symbolic variables;
branches on them fork when the solver finds both sides possible; `CHECK(...)` becomes an assertion that the solver must show to hold
for every value that reaches it, or refute with a model. Paths are explored exhaustively: a run that does not finish all of them
within its time limit is an error (exit 2), never a silent pass. Every harness entry must have reached at least one CHECK.

* **Executor** (`engine/exec.cpp`, `loader.cpp`): LLVM IR including vectors and the AVX2/AVX-512 intrinsics the library uses, a byte-precise
  heap with one region per allocation (so that every access outside an allocation, use after free, double free, invalid free, leak, read of
  unset memory steering a result, undefined shift, division by zero, signed-overflow-free-by-construction `unreachable`, and C++
  `terminate` is a violation), symbolic addresses (by case split or by an if-then-else over the object), failing allocations, threads
  with atomics, C++ exceptions.
* **Solver** (`engine/expr.cpp`, `bsat.cpp`, `solver.cpp`): hash-consed bit-vector terms, simplifier with intervals and known bits,
  incremental bit-blasting and CDCL SAT search restricted to the cone of the query. Every model is checked against an evaluator; a sample of
  the unsatisfiable answers of *every* run is decided a second time by z3 (field `cross_checked_by_z3` in the evidence), and queries that
  time out are given to z3. `symex --selftest` compares simplifier, bit-blaster and z3 on random terms.
* **Replay** (`native/`): for every violation the solver's values are run through the same harness compiled natively against /repo under
  ASan/UBSan (TSan for C22); a violation is reported with its replay directory. Symptom and model have to agree: if the native run does not
  fail, the check ends as "not confirmed" (exit 2), except for schedules and memory faults that only the executor's stricter heap sees, which
  are marked so. In addition 24 (thorough: 200) *passing* paths of each run are sampled, their inputs are run natively and the observed
  values (`OBS`) and the outcome compared: that is the check on the executor's own faithfulness ("24/24 traces agree natively").
* **Oracle**: never the library. Sets are described in the harness (`h.h`, `spec.h`, `m64.h`, `cxx.hpp`) by a membership formula over the
  same symbolic variables (windows of solver-chosen values/run ends/bitset words on concrete base patterns; tiny sets with arbitrary keys;
  cells at solver-chosen places), counting formulas for cardinality and rank, and a parser of the published format for serialization. A result
  is compared by enumeration of its containers' raw memory *and* through the API. Formulas do not mention container types, so a different
  choice of representation raises no alarm; only `internal_validate`'s own rules (C11) are about representation.
* **Sharding**: `PICKN` splits an entry into shards that run as separate processes on 8 cores; `registry.py` lists the entries, parameters and
  bounds per property and tier; `check.py` builds, runs, replays, writes `evidence/<id>.json` (functions encoded, bounds, queries, solver time).

### Why this goes beyond the tests
The library switches algorithm on representation (array / bitset / run, shared or not, three CPU levels), on thresholds (4096 values, run
counts, galloping ratios, vector lengths) and on alignments of value windows; the tests sample random sets. Here all representation pairs are
enumerated and within each the element values, run ends, keys, range bounds, truncation points, failing allocation or schedule are chosen by
the solver, so that *every* value in the bounds is covered. About 30 genuine defects were found this way in code whose test-suite passes
(list below).

### What is not covered by any check
Sequences longer than stated; base patterns of large containers other than the 18 shapes; big-endian hosts; MSVC/Windows and NEON code paths;
printing functions; `roaring_bitmap_statistics` beyond what C10/D07 state; performance. Floating point is only executed concretely
(jaccard_index is checked by rational comparison on enumerated cardinalities).

### Not applicable
None: all 32 properties are claimed. Within them the parts that could not be encoded are listed under "outside". Two statements were narrowed
to what the library promises: C20 covers the functions that can report an allocation failure (the native uint32-array reader, set operations, add,
run_optimize and the 64-bit bitmap do not check allocations and say so in comments: "TODO: Error on failed allocation"), and C16 excludes mixing
copy-on-write and other bitmaps, which the header documents as unsafe.
"""
NOTES = {
"C01": "Oracle: membership formula of the two operands combined by the Boolean operation; compared for every value near the windows and by counting. Kernel entry: one chunk per side over all shape pairs; merge entry: the top-level walk over keys with any keys.",
"C02": "As C01, with the destination built fresh, shared copy-on-write, or aliased; the source and any copy sharing containers must be unchanged.",
"C03": "Chains of lazy operations closed by repair, and n-ary unions/xors, against the folded formula; intermediate results are only used through the functions that accept them.",
"C04": "Cardinalities, intersect, subset, strict subset, equality, jaccard and range predicates against counting formulas.",
"C05": "Histories of updates against a formula updated in parallel; the result, its return values, and sharing partners are compared.",
"C06": "Range bounds are 64-bit symbolic values; the oracle clips them once, in mathematical integers.",
"C07": "rank/select/get_index/rank_many/minimum/maximum against counting formulas; select(rank(v)-1)=v is not assumed but follows.",
"C08": "A cursor in the model (position in the sorted set) is moved in parallel with the iterator over solver-chosen call sequences.",
"C09": "Exports are compared element by element with the membership formula plus order and count; arrays have exactly the announced size, so a write past it is a memory violation.",
"C10": "The set before and after must be the same formula; the announced savings and statistics must match the containers.",
"C11": "internal_validate and an independent invariant checker in harness/spec.h run on the outcome of every operation entry.",
"C12": "A parser of the published format in the harness decodes the bytes; sizes must match exactly; every reader must reproduce the set.",
"C13": "Frozen image written in a buffer of exactly the announced size; the view is read by every query and used as operand.",
"C14": "Symbolic buffers: every byte is a variable, the buffer is an allocation of exactly that size, so any read outside is a memory violation; leaks are violations.",
"C15": "As C14, then internal_validate is asked; if it accepts, an operation is run and its result compared with the values the bytes denote.",
"C16": "One operation on each of two copies; both compared with their own formula; allocation balance at the end; the counter code is also compiled with each atomic implementation.",
"C17": "Offset shifts against the shifted formula, including drops at both ends of the universe.",
"C18": "The same oracle as C01/C02/C04/C09/C10 with the CPU-feature word fixed to AVX2 or AVX-512; the vector code is executed instruction by instruction, symbolically.",
"C19": "A recording memory hook: allocator kind, double release, foreign pointers, leaks, for histories of all modules.",
"C20": "The index of the failing allocation is symbolic; afterwards everything is used and freed; the operands must be unchanged or as documented.",
"C21": "Plain bitsets of up to 5 words of free content against bit formulas.",
"C22": "Two threads in the executor; all schedules of atomic operations up to a preemption bound; a vector-clock monitor reports unordered conflicting accesses; violations are replayed natively under TSan.",
"D01": "Histories on the adaptive radix tree index with any 64-bit keys; nodes of every fan-out and level.",
"D02": "As C01/C02/C04 for roaring64.", "D03": "As C06 for roaring64.", "D04": "As C07/C08/C09 for roaring64.", "D05": "As C12/C13 for roaring64.", "D06": "As C14/C15 for roaring64.", "D07": "As C10/C16 for roaring64.",
"E01": "The C++ wrapper compiled to IR with the real libstdc++ headers; sets of cells (masks) so that every operator is one on masks; allocations balance at the end.",
"E02": "As E01 for Roaring64Map; inner maps that exist but are empty come from read(); std::map's out-of-line tree functions are provided without rebalancing.",
"E03": "As C12-C14 through the C++ classes; truncation must throw, arbitrary bytes must stay inside the buffer, and C and C++ readers must agree.",
}
def wall(p):
    try: e = json.load(open(os.path.join(H, "evidence", p + ".json"))); return e
    except Exception: return None
out = [HEAD, "## The properties\n"]
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l); i = p["id"]; r = registry.PROPS.get(i)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("%s\n" % NOTES.get(i, ""))
    if r:
        out.append("Bounds: %s.\n" % r["bounds"]); out.append("Outside: %s.\n" % r["outside"])
        out.append("Entries (quick): %s. Seconds on 8 idle cores: %s.\n" % (", ".join("%s:%s" % (j["h"], j["name"]) for j in r["quick"]), registry.SECONDS.get(i, "?")))
out.append("## Defects found and repaired\n\nEach is a `fix:` commit in /repo and an entry of known_findings.json; with the fix reverted, the check of that property reports the violation.\n")
for e in json.load(open(os.path.join(H, "known_findings.json"))): out.append("* " + e["what"])
out.append("""
Not repaired: none known. Looked at and judged to be no defect: a 64-bit frozen view cannot be frozen again (documented precondition: shrink first);
mixing copy-on-write and other bitmaps; C functions called with x1 == x2 where the code asserts they differ (repaired in the C++ wrapper only).

False alarms met while building, and what was done: reads of padding bytes (struct copies) are not reads of unset values unless a result depends on
them; `r.move_equalorlarger` on moved-to objects and self-move are excluded; checks that looked at container types were replaced by checks of sets.
""")
out.append("## Planted bugs (seeded/) and what catches them\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(H, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json"))); out.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"] + " quick")))
try: out.append("\n" + open(os.path.join(H, "tools", "design_bugs.md")).read())
except OSError: pass
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out) + "\n")
