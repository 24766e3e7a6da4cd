#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current tree by symbolic execution."""
import sys, os, json, subprocess, time, glob, shutil, tempfile, fcntl, signal, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import registry
NPROC = min(8, os.cpu_count() or 8)
BUILD = os.path.join(HERE, "build")
CFGNAME = {0: "scalar", 1: "AVX2", 3: "AVX2+AVX512"}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
class Fail(Exception): pass
def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode: raise Fail("command failed: %s\n%s" % (" ".join(cmd)[:400], (r.stdout + r.stderr)[-3000:]))
    return r

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        must(["make", "-s", "-j%d" % NPROC, "-C", os.path.join(HERE, "engine")])

BASE = ["-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only", "-emit-llvm", "-c"]
CSTD = ["-std=c11", "-D_GNU_SOURCE", "-I%s/include" % REPO]
CXX = ["-std=c++17", "-I%s/cpp" % REPO, "-I%s/include" % REPO]
LIBSAN = ["-fsanitize=unreachable", "-fsanitize-trap=unreachable"]
HARN = ["-I%s/harness" % HERE, "-w"]

class Builder:
    def __init__(self, jobs, work):
        self.w, self.jobs = work, jobs
        self.ex = ThreadPoolExecutor(NPROC)
        self.srcs = sorted(glob.glob(REPO + "/src/**/*.c", recursive=True))
        if not self.srcs: raise Fail("no sources in " + REPO)
        self.native_f = None
    def uniq(self, f): return os.path.relpath(f, REPO + "/src").replace("/", "_")[:-2]
    def symbolic(self):
        w, fs = self.w, []
        lib = []
        for f in self.srcs:
            o = "%s/%s.bc" % (w, self.uniq(f)); lib.append(o)
            fs.append(self.ex.submit(must, ["clang", "-O1", "-DNDEBUG"] + BASE + CSTD + LIBSAN + [f, "-o", o]))
        cfgs = sorted({j["cfg"] for j in self.jobs})
        for c in cfgs:
            fs.append(self.ex.submit(must, ["clang", "-O1"] + BASE + ["-DCFG=%d" % c, HERE + "/harness/stub_cfg.c", "-o", "%s/cfg%d.bc" % (w, c)]))
        fs.append(self.ex.submit(must, ["clang", "-O1"] + BASE + HARN + [HERE + "/harness/stub_libc.c", "-o", w + "/libc.bc"]))
        hs = sorted({j["h"] for j in self.jobs})
        cpp = any(h.endswith(".cpp") for h in hs)
        if cpp: fs.append(self.ex.submit(must, ["clang++", "-O1"] + BASE + CXX + HARN + [HERE + "/harness/stub_cxx.cpp", "-o", w + "/cxx.bc"]))
        for h in hs:
            o = "%s/h_%s.bc" % (w, h.replace(".", "_"))
            cc = (["clang++"] + CXX) if h.endswith(".cpp") else (["clang"] + CSTD)
            fs.append(self.ex.submit(must, [cc[0], "-O1", "-DNDEBUG"] + BASE + cc[1:] + HARN + [HERE + "/harness/" + h, "-o", o]))
        for f in fs: f.result()
        must(["llvm-link"] + lib + [w + "/libc.bc"] + ([w + "/cxx.bc"] if cpp else []) + ["-o", w + "/lib.bc"])
        self.mod = {}
        ls = []
        for h, c in sorted({(j["h"], j["cfg"]) for j in self.jobs}):
            m = "%s/m_%s_%d.bc" % (w, h.replace(".", "_"), c); self.mod[h, c] = m
            ls.append(self.ex.submit(must, ["llvm-link", w + "/lib.bc", "--override=%s/cfg%d.bc" % (w, c), "%s/h_%s.bc" % (w, h.replace(".", "_")), "-o", m]))
        for f in ls: f.result()
    # native replay binary per harness file: one ASAN build of the library
    def native_start(self):
        self.native_f = {}; self.tsan = {}; self.tsan_lock = threading.Lock()
        w = self.w
        san = ["-O1", "-g", "-DNDEBUG", "-fsanitize=address,unreachable", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
        os.makedirs(w + "/n", exist_ok=True)
        objs = []
        for f in self.srcs:
            o = "%s/n/%s.o" % (w, self.uniq(f))
            d = ["-Dcroaring_hardware_support=real_hardware_support"] if f.endswith("/isadetection.c") else []
            objs.append((o, self.ex.submit(must, ["clang"] + san + CSTD + d + ["-c", f, "-o", o])))
        nat = self.ex.submit(must, ["clang"] + san + CSTD + ["-w", "-c", HERE + "/native/native.c", "-o", w + "/n/native.o"])
        new = self.ex.submit(must, ["clang++"] + san + ["-w", "-c", HERE + "/native/native_new.cpp", "-o", w + "/n/new.o"])
        hs = {}
        for h in {j["h"] for j in self.jobs}:
            o = "%s/n/h_%s.o" % (w, h.replace(".", "_"))
            cc = (["clang++"] + CXX) if h.endswith(".cpp") else (["clang"] + CSTD)
            hs[h] = (o, self.ex.submit(must, [cc[0]] + san + cc[1:] + HARN + ["-c", HERE + "/harness/" + h, "-o", o]))
        def link(h):
            for _, f in objs: f.result()
            nat.result(); new.result(); hs[h][1].result()
            exe = "%s/n/%s.exe" % (w, h.replace(".", "_"))
            wrap = ["-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc")]
            must(["clang++", "-fsanitize=address", "-rdynamic"] + wrap + [o for o, _ in objs] + [w + "/n/native.o", w + "/n/new.o", hs[h][0], "-o", exe, "-ldl", "-lpthread"])
            return exe
        ex2 = ThreadPoolExecutor(4)
        for h in hs: self.native_f[h] = ex2.submit(link, h)
    def native(self, h): return self.native_f[h].result()
    def native_tsan(self, h): # the same program under the thread sanitizer, built when a schedule is to be reproduced
        with self.tsan_lock:
            if h not in self.tsan:
                w = self.w + "/t"; os.makedirs(w, exist_ok=True); san = ["-O1", "-g", "-DNDEBUG", "-fsanitize=thread"]; fs = []
                for f in self.srcs + [HERE + "/native/native.c", HERE + "/harness/" + h]:
                    o = "%s/%s.o" % (w, self.uniq(f)); d = ["-Dcroaring_hardware_support=real_hardware_support"] if f.endswith("/isadetection.c") else []
                    fs.append((o, self.ex.submit(must, ["clang"] + san + CSTD + HARN + ["-w"] + d + ["-c", f, "-o", o])))
                for _, x in fs: x.result()
                wrap = ["-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc")]
                exe = w + "/" + h.replace(".", "_") + ".exe"
                must(["clang", "-fsanitize=thread", "-rdynamic"] + wrap + [o for o, _ in fs] + ["-o", exe, "-ldl", "-lpthread"])
                self.tsan[h] = exe
            return self.tsan[h]

def cpu_has_avx512():
    try: t = open("/proc/cpuinfo").read()
    except OSError: return False
    return all(x in t for x in (" avx512vbmi2", " avx512bw", " avx512vpopcntdq", " avx512bitalg", " avx512dq"))

def write_inputs(path, job, rec):
    with open(path, "w") as f:
        for k, v in job["params"].items(): f.write("P %s %d\n" % (k, v))
        for n, v in rec["syms"]: f.write("S %s %d\n" % (n, v))
        if rec.get("sched"): f.write("# sched %s\n" % rec["sched"])

def run_native(exe, job, inputs, timeout=60):
    env = dict(os.environ, CFG=str(job["cfg"]))
    for a in job["args"]:
        if a.startswith("--fill="): env["ASAN_OPTIONS"] = "malloc_fill_byte=" + a[7:]
    try:
        r = subprocess.run([exe, job["entry"], inputs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired: return "timeout", "", ""
    return r.returncode, r.stdout, r.stderr

class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.jobs = registry.jobs(prop, tier)
        self.t0 = time.time()
        self.total = registry.budget(prop, tier)
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.stop = threading.Event()
        self.procs = set(); self.lock = threading.Lock()
        self.results = []; self.errors = []; self.viol = None; self.unconf = []; self.known_hit = []
        self.known = [k for k in json.load(open(HERE + "/known_findings.json")) if k.get("status") == "known" and k["property"] == prop]
        self.validated = 0; self.vmismatch = []; self.sample_cases = []
    def left(self): return self.total - (time.time() - self.t0)

    def shard(self, job, i):
        if self.stop.is_set(): return
        t = min(job["time"], self.left())
        if t < 1:
            with self.lock: self.results.append((job, i, None, "not started: check budget used up"))
            return
        out = "%s/o_%s_%d.json" % (self.work, job["name"], i)
        cmd = [BUILD + "/symex", self.b.mod[job["h"], job["cfg"]], "--entry=" + job["entry"], "--out=" + out, "--time=%d" % int(t),
               "--samples=%d" % job["samples"], "--seed=%d" % self.seed] + ["--param=%s=%d" % kv for kv in job["params"].items()]
        if job["shards"] > 1: cmd.append("--shard=%d/%d" % (i, job["shards"]))
        cmd += job["args"]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        with self.lock: self.procs.add(p)
        try:
            log, _ = p.communicate(timeout=t + 60)
        except subprocess.TimeoutExpired:
            p.kill(); log, _ = p.communicate()
        with self.lock: self.procs.discard(p)
        if self.stop.is_set() and p.returncode < 0: return
        try: j = json.load(open(out)); os.unlink(out)
        except Exception:
            with self.lock:
                if p.returncode in (-9, 137): self.results.append((job, i, None, "ended by the system (memory)"))
                else: self.errors.append("engine failed on %s shard %d (rc %s): %s" % (job["name"], i, p.returncode, log[-400:]))
            return
        with self.lock: self.results.append((job, i, j, ""))
        if not j["complete"] and not j["violations"] and "limit" not in j["why"]:
            with self.lock: self.errors.append("engine incomplete on %s shard %d: %s" % (job["name"], i, j["why"]))
        for v in j["violations"]: self.violation(job, v)
        if j["samples"]:
            with self.lock: self.samples.extend((job, s) for s in j["samples"])

    def violation(self, job, v):
        if self.stop.is_set(): return
        n = hashlib.sha1(json.dumps([job["name"], v["syms"], v["msg"]]).encode()).hexdigest()[:10]
        d = "%s/replay/%s-%s" % (BUILD, self.prop, n)
        os.makedirs(d, exist_ok=True)
        write_inputs(d + "/inputs.txt", job, v)
        ok, how = self.confirm(job, v, d)
        json.dump(dict(property=self.prop, job=job["name"], harness=job["h"], entry=job["entry"], cfg=job["cfg"], params=job["params"], violation=v, confirmed=ok, native=how), open(d + "/violation.json", "w"), indent=1)
        with open(d + "/README", "w") as f:
            f.write("%s\n%s at %s\n%s\nReplay: python3 %s/check.py --replay %s\nnative: %s\n" % (v["kind"], v["msg"], v["loc"], v["stack"], HERE, d, how))
        with self.lock:
            for k in self.known:
                if k.get("entry", job["entry"]) == job["entry"] and k["msg"] in v["msg"] and k.get("loc", "") in v["loc"] + v["stack"]:
                    self.known_hit.append((k, d)); return
            if ok:
                if not self.viol: self.viol = (job, v, d, how)
                self.stop.set()
                for p in self.procs: p.kill()
            else: self.unconf.append((job, v, d, how))

    def confirm(self, job, v, d):
        if job["cfg"] == 3 and not cpu_has_avx512(): return True, "not replayed: this CPU has no AVX-512; the symbolic counterexample stands"
        if job.get("replay") == "engine": # schedules: the executor re-runs the schedule concretely
            how = "the executor's schedule: %s; " % v.get("sched", "")
            try: exe = self.b.native_tsan(job["h"])
            except Fail as e: return True, how + "no native build: " + str(e)[-200:]
            env = dict(os.environ, CFG=str(job["cfg"]), SYM_THREADS="1", TSAN_OPTIONS="exitcode=66")
            for i in range(20): # the native threads run as they come
                try: r = subprocess.run([exe, job["entry"], d + "/inputs.txt"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=60, errors="replace")
                except subprocess.TimeoutExpired: return True, how + "the native run does not end"
                if r.returncode: return True, how + "native run %d under TSan: rc=%d %s" % (i + 1, r.returncode, " ".join(l for l in (r.stdout + r.stderr).splitlines() if "SUMMARY" in l or "ASSERT" in l)[:300])
            return True, how + "not reproduced by 20 native runs under TSan, which do not follow the schedule"
        try: exe = self.b.native(job["h"])
        except Fail as e: return False, "native build failed: " + str(e)[-300:]
        rc, out, err = run_native(exe, job, d + "/inputs.txt", 20 if v["kind"] == "limit" else 120)
        tail = (out[-300:] + " " + "\n".join(l for l in err.splitlines() if "ERROR" in l or "SUMMARY" in l)[:400]).strip()
        how = "rc=%s %s" % (rc, tail)
        if rc in (5, 6, 0): return False, how
        if rc == "timeout": return v["kind"] == "limit", how
        return True, how

    def validate(self):
        """replays sampled symbolic paths natively and compares what both observed"""
        import random
        rnd = random.Random(self.seed)
        todo = [s for s in self.samples if not (s[0]["cfg"] == 3 and not cpu_has_avx512())]
        rnd.shuffle(todo)
        n = registry.NSAMPLES[self.tier]
        def one(x):
            i, (job, s) = x
            if self.left() < -60: return None
            p = "%s/s_%d.txt" % (self.work, i)
            write_inputs(p, job, s)
            rc, out, err = run_native(self.b.native(job["h"]), job, p)
            obs = [[a.split()[1], int(a.split()[2])] for a in out.splitlines() if a.startswith("OBS ")]
            return job, s, rc, obs, out[-200:] + err[-600:]
        with ThreadPoolExecutor(NPROC) as ex:
            for r in ex.map(one, enumerate(todo[:n])):
                if r is None: continue
                job, s, rc, obs, tail = r
                if rc == 0 and obs == [list(o) for o in s["obs"]]: self.validated += 1
                else: self.vmismatch.append("%s: rc=%s native obs %s, symbolic obs %s, syms %s %s" % (job["name"], rc, obs[:12], s["obs"][:12], s["syms"][:40], tail))
                if len(self.sample_cases) < 6: self.sample_cases.append(dict(job=job["name"], inputs=s["syms"][:60], observed=s["obs"][:20], native_exit=rc))

    def run(self):
        build_engine()
        self.samples = []
        self.b = Builder(self.jobs, self.work)
        self.b.symbolic()
        self.b.native_start()
        units = [(j, i) for j in self.jobs for i in range(j["shards"])]
        # interleave jobs so an early stop or a used-up budget touches all of them
        units.sort(key=lambda u: (u[0]["prio"], u[1] * 7919 % 997))
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda u: self.shard(*u), units))
        if not self.viol: self.validate()
        return self.finish(len(units))

    def finish(self, nunits):
        T = {}
        per = {}
        funcs = {}
        reached = {}
        inc = []
        for job, i, j, why in self.results:
            if j is None: inc.append("%s[%d]: %s" % (job["name"], i, why)); continue
            for k in ("paths", "killed_by_assume", "forks", "instructions", "asserts_folded", "asserts_solver", "queries", "sat", "unsat", "unknown", "by_z3", "cross_checked_by_z3", "cache_hits", "model_hits", "solver_s", "wall_s", "sched_points", "sym_reads", "sym_writes"):
                T[k] = T.get(k, 0) + j.get(k, 0)
            q = per.setdefault(job["name"], dict(paths=0, killed_by_assume=0, queries=0, solver_s=0.0, shards_done=0, shards=job["shards"], complete=True))
            q["paths"] += j["paths"]; q["killed_by_assume"] += j["killed_by_assume"]; q["queries"] += j["queries"]; q["solver_s"] = round(q["solver_s"] + j["solver_s"], 3); q["shards_done"] += 1
            if not j["complete"]: q["complete"] = False; inc.append("%s[%d]: %s" % (job["name"], i, j["why"]))
            for l in j["reached"]: reached.setdefault(job["name"], set()).add(l)
            for n, c, cov, tot in j["functions"]:
                f = funcs.setdefault(n, [0, 0, tot]); f[0] += c; f[1] = max(f[1], cov)
        for job in self.jobs:
            if self.viol or self.unconf or self.known_hit: break
            r = per.get(job["name"])
            if r and r["complete"] and r["shards_done"] == r["shards"] and (r["paths"] == 0 or not reached.get(job["name"])) and not job.get("may_be_empty"):
                self.errors.append("vacuous: %s explored %d paths and reached no assertion" % (job["name"], r["paths"]))
        meta = registry.PROPS[self.prop]
        libf = {n: f for n, f in funcs.items() if n in self.libnames()}
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
            coverage=dict(states=int(T.get("paths", 0) + T.get("killed_by_assume", 0)), transitions=int(T.get("instructions", 0)),
                traces_validated_against_impl=self.validated,
                samples=self.sample_cases or [dict(job=j["name"], note="no sample") for j in self.jobs[:1]],
                exhaustive=not inc and not self.viol and not self.errors,
                rule="states = symbolic paths (completed or cut by an assumption), each covering every value of its symbolic inputs; transitions = LLVM instructions executed symbolically; traces_validated = sampled paths whose solver model was re-run natively (clang, ASan) with identical observations",
                bounds=meta["bounds"], outside=meta["outside"],
                functions_encoded=len(libf), functions=sorted("%s (%d/%d blocks)" % (n, f[1], f[2]) for n, f in libf.items()),
                completed_paths=int(T.get("paths", 0)), assertions_decided_by_solver=int(T.get("asserts_solver", 0)), assertions_decided_by_folding=int(T.get("asserts_folded", 0)),
                queries_discharged=int(T.get("queries", 0)), queries_sat=int(T.get("sat", 0)), queries_unsat=int(T.get("unsat", 0)), queries_unknown=int(T.get("unknown", 0)),
                unsat_cross_checked_by_z3=int(T.get("cross_checked_by_z3", 0)), solver_seconds=round(T.get("solver_s", 0), 2), executor_cpu_seconds=round(T.get("wall_s", 0), 2),
                jobs=per, work_units=nunits, incomplete=inc[:60], labels_reached=sorted(set().union(*reached.values())) if reached else [],
                configurations=sorted({CFGNAME[j["cfg"]] for j in self.jobs}), known_findings=[k["what"] for k, _ in self.known_hit]),
            assumptions=registry.ASSUMPTIONS + meta.get("assumptions", []), wall_s=round(time.time() - self.t0, 2), violations=1 if self.viol else 0)
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (HERE, self.prop), "w"), indent=1)
        for k, d in {k["id"]: (k, d) for k, d in self.known_hit}.values(): print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        print("%s %s: %d paths, %d queries (%d unsat), solver %.1fs, %d/%d traces agree natively, wall %.1fs%s" % (self.prop, self.tier, T.get("paths", 0), T.get("queries", 0), T.get("unsat", 0), T.get("solver_s", 0), self.validated, self.validated + len(self.vmismatch), time.time() - self.t0, "" if not inc else ", %d units incomplete" % len(inc)))
        if inc: print("note: not fully explored within the time given: " + "; ".join(inc[:8]))
        if self.viol:
            job, v, d, how = self.viol
            print("  %s: %s at %s [%s, %s]\n  inputs %s\n  native: %s" % (v["kind"], v["msg"], v["loc"], job["name"], CFGNAME[job["cfg"]], v["syms"][:40], how))
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
            return 1
        rc = 0
        for job, v, d, how in self.unconf[:5]:
            print("UNCONFIRMED counterexample %s: %s at %s inputs %s; %s" % (job["name"], v["msg"], v["loc"], v["syms"][:40], how)); rc = 2
        for m in self.vmismatch[:5]: print("TRACE MISMATCH " + m); rc = 2
        for e in self.errors[:8]: print("ERROR " + e); rc = 2
        return rc
    def libnames(self):
        if not hasattr(self, "_ln"):
            r = sh(["llvm-nm", "--defined-only", self.work + "/lib.bc"])
            stub = {"qsort", "croaring_hardware_support"}
            self._ln = {l.split()[-1] for l in r.stdout.splitlines() if l.split()} - stub
            if any(j["h"].endswith(".cpp") for j in self.jobs):
                for h in {j["h"] for j in self.jobs if j["h"].endswith(".cpp")}:
                    r = sh(["llvm-nm", "--defined-only", "%s/h_%s.bc" % (self.work, h.replace(".", "_"))])
                    self._ln |= {l.split()[-1] for l in r.stdout.splitlines() if "7roaring" in l}
        return self._ln

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        d = sys.argv[2]; m = json.load(open(d + "/violation.json"))
        job = [j for j in registry.jobs(m["property"], "quick") + registry.jobs(m["property"], "thorough") if j["name"] == m["job"]][0]
        w = tempfile.mkdtemp(); b = Builder([job], w); b.native_start()
        print(run_native(b.native(job["h"]), job, d + "/inputs.txt")); shutil.rmtree(w); return 0
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier)
    def term(*a):
        c.stop.set()
        for p in list(c.procs): p.kill()
        shutil.rmtree(c.work, ignore_errors=True); os._exit(2)
    signal.signal(signal.SIGTERM, term)
    try: rc = c.run()
    except Fail as e: print("ERROR", e); rc = 2
    finally:
        if not os.environ.get("KEEP_WORK"): shutil.rmtree(c.work, ignore_errors=True)
        else: print("work", c.work)
    sys.stdout.flush(); os._exit(rc)
if __name__ == "__main__": main()
