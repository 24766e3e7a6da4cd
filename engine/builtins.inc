// Built-in functions, LLVM intrinsics and inline assembly.  Included by exec.cpp.
static std::map<u64,u64> g_typeSel; static u64 typeSel(u64 t) { auto it = g_typeSel.find(t); if (it != g_typeSel.end()) return it->second; u64 n = g_typeSel.size() + 1; g_typeSel[t] = n; return n; }
static bool excDerives(u64, u64) { return false; }

static void spawnThread(u64 fn, Val arg) {
  if ((fn >> REGION_BITS) != FUNC_REGION) fail("memory", "call through an invalid function pointer");
  u32 id = (fn - (FUNC_REGION << REGION_BITS) - 4096) / 16; Func *f = g_funcs[id]; if (!f->translated) translate(f);
  u32 ntid = S->th.size(); S->th.emplace_back(); Thread &p = S->th[S->cur]; Thread &n = S->th[ntid];
  if (p.vc.size() < ntid + 1) p.vc.resize(ntid + 1, 0); if (p.vc[S->cur] == 0) p.vc[S->cur] = 1;
  n.vc = p.vc; n.vc[ntid] = 1; p.vc[S->cur]++;
  Frame fr; fr.f = f; fr.ip = 0; fr.regBase = 0; fr.stackMark = 0; fr.ci = nullptr; fr.va = 0; n.regs.assign(f->nslots, VC(0)); if (!f->argSlots.empty()) n.regs[f->argSlots[0]] = arg; n.frames.push_back(fr); f->calls++; f->cov[0] = 1;
}

static void doBuiltin(Thread &t, Frame &f, const Inst &I, int id, const std::string &name, const Val *A, const u32 *off, const u32 *cnt, const u32 *wid, u32 na) {
#define ARG(i) A[off[i]]
  Val rv[256]; unsigned n = I.lanes; if (n > 256) throw Fatal{"builtin result too wide"}; for (unsigned i = 0; i < n; i++) rv[i] = VC(0);
  unsigned w = I.w; (void)t; (void)f;
  switch (id) {
    case B_symRange: { // (name, width, lo, hi)
      std::string nm = cstr(ARG(0)); unsigned sw = conc(ARG(1)); u64 lo = conc(ARG(2)), hi = conc(ARG(3)); if (lo > hi) throw Fatal{"sym range empty: " + nm};
      u32 occ = S->symCount[nm]++; static std::map<std::string, Expr*> cache; std::string key = nm + "#" + std::to_string(occ) + ":" + std::to_string(sw) + ":" + std::to_string(lo) + ":" + std::to_string(hi);
      Expr *&e = cache[key]; if (!e) e = mkSymRange(nm, sw, lo, hi); S->syms.push_back(e->val); growModel(S->model);
      if (lo == hi) rv[0] = VC(lo); else rv[0] = VE(mkZExt(e, 64)); break; }
    case B_shardPick: { // (name, count): a choice below count, only those of this shard
      std::string nm = cstr(ARG(0)); u64 n = conc(ARG(1)); u32 occ = S->symCount[nm]++; static std::map<std::string, Expr*> cache; Expr *&e = cache[nm + "#" + std::to_string(occ) + ":" + std::to_string(n)];
      if (!e) e = mkSymRange(nm, 32, 0, n - 1); S->syms.push_back(e->val); growModel(S->model);
      if (g_opt.shardN > 1) { if ((u64)g_opt.shardI >= n) throw PathEnd{1}; Expr *any = nullptr; for (u64 v = g_opt.shardI; v < n; v += g_opt.shardN) { Expr *q = mkBin(O_Eq, e, mkConst(v, 32)); any = any ? mkBin(O_Or, any, q) : q; }
        if (isConst(any)) { if (!any->val) throw PathEnd{1}; } else { Model m2; if (!evalM(any)) { if (feasible(any, m2) != R_SAT) throw PathEnd{1}; S->model = m2; } addPc(any); } }
      if (isConst(e)) rv[0] = VC(e->val); else rv[0] = VE(mkZExt(e, 64)); break; }
    case B_symBytes: { u64 p = conc(ARG(0)), len = conc(ARG(1)); std::string nm = cstr(ARG(2)); if (!len) break; Obj *o = access(p, len, true);
      for (u64 i = 0; i < len; i++) { u32 occ = S->symCount[nm]++; static std::map<std::string, Expr*> cache; Expr *&e = cache[nm + "#" + std::to_string(occ)]; if (!e) e = mkSymRange(nm, 8, 0, 255); S->syms.push_back(e->val); growModel(S->model); writeCell(o, p - o->base + i, 1, 8, VE(e)); } break; }
    case B_assume: { Val c = ARG(0); Expr *e = EX(c, wid[0]); if (wid[0] > 1) e = mkNot(mkBin(O_Eq, e, mkConst(0, wid[0]))); if (isConst(e)) { if (!e->val) throw PathEnd{1}; break; }
      if (knownTruth(e) == 1) break; Model m2; if (!evalM(e)) { if (feasible(e, m2) != R_SAT) throw PathEnd{1}; S->model = m2; } addPc(e); break; }
    case B_assert: { Val c = ARG(0); std::string msg = cstr(ARG(1)); g_reached.insert(msg); S->asserts++; Expr *e = EX(c, wid[0]); if (wid[0] > 1) e = mkNot(mkBin(O_Eq, e, mkConst(0, wid[0])));
      if (isConst(e)) { st.assertsConcrete++; if (!e->val) fail("assert", msg); break; }
      if (knownTruth(e) == 1) { st.assertsConcrete++; break; }
      st.assertsSolver++; Model m2; if (feasible(mkNot(e), m2) == R_SAT) { violation("assert", msg, m2); if (!evalM(e)) { if (feasible(e, m2) != R_SAT) throw PathEnd{2}; S->model = m2; } addPc(e); } else addFact(e); break; }
    case B_observe: { S->obs.push_back({nameId(cstr(ARG(0))), ARG(1)}); break; }
    case B_conc: rv[0] = VC(conc(ARG(0))); break;
    case B_param: { std::string nm = cstr(ARG(0)); auto it = g_opt.params.find(nm); rv[0] = VC(it != g_opt.params.end() ? (u64)it->second : conc(ARG(1))); break; }
    case B_total: rv[0] = VC((u64)S->allocSeq); break;
    case B_live: rv[0] = VC((u64)S->live); break;
    case B_noLeak: S->noLeakCheck = true; break;
    case B_isNative: rv[0] = VC(0); break;
    case B_shard: { Val v = ARG(0); u64 x = conc(v); if (g_opt.shardN > 1 && (int)(x % g_opt.shardN) != g_opt.shardI) throw PathEnd{1}; rv[0] = VC(x); break; }
    case B_note: g_notes.insert(cstr(ARG(0))); break;
    case B_spawn: { u64 fn = conc(ARG(0)); Val a = ARG(1); u32 tid = S->th.size(); spawnThread(fn, a); rv[0] = VC(tid); Val r0 = rv[0]; finishCall(&r0, 1); return; }
    case B_join: { u32 tid = conc(ARG(0)); if (!S->th[tid].done) { S->th[S->cur].joinOn = tid; std::vector<u32> run; for (u32 i = 0; i < S->th.size(); i++) if (runnable(i)) run.push_back(i); if (run.empty()) fail("deadlock", "join never returns");
        for (size_t k = 1; k < run.size(); k++) { State *nst = cloneState(); nst->cur = run[k]; nst->sched += "@" + std::to_string(run[k]); work.push_back(nst); st.forks++; }
        S->cur = run[0]; S->sched += "@" + std::to_string(run[0]); return; }
      S->th[S->cur].joinOn = -1; vcJoin(S->th[S->cur].vc, S->th[tid].vc); break; }
    case B_symMin: case B_symMax: { Val a = ARG(0); if (!a.e) { rv[0] = a; break; } Expr *e = a.e; while (e->op == O_ZExt) e = e->a; u64 lo = e->umin, hi = e->umax; if (hi - lo > 256) tighten(e, lo, hi); rv[0] = VC(id == B_symMin ? lo : hi); break; }
    case B_isSym: rv[0] = VC(ARG(0).e != nullptr); break;
    case B_objSize: { u64 p = conc(ARG(0)); Obj *o = find(p); rv[0] = VC(o && !o->freed ? o->size : 0); break; }
    case B_malloc: { u64 sz = conc(ARG(0)); rv[0] = VC(sz > (1ULL << 31) ? 0 : newHeap(sz, 16, FAM_MALLOC, false)); break; }
    case B_calloc: { u64 a = conc(ARG(0)), b = conc(ARG(1)); u64 sz; if (__builtin_mul_overflow(a, b, &sz) || sz > (1ULL << 31)) rv[0] = VC(0); else rv[0] = VC(newHeap(sz, 16, FAM_MALLOC, true)); break; }
    case B_realloc: { u64 p = conc(ARG(0)), sz = conc(ARG(1)); if (!p) { rv[0] = VC(sz > (1ULL << 31) ? 0 : newHeap(sz, 16, FAM_MALLOC, false)); break; }
      if (!sz) { freeObj(p, FAM_MALLOC, "realloc"); rv[0] = VC(0); break; } if (sz > (1ULL << 31)) { rv[0] = VC(0); break; }
      Obj *o = find(p); if (!o || o->kind != K_Heap || o->base != p) fail("memory", "realloc of a pointer that is not the start of a heap block"); if (o->freed) fail("memory", "realloc of freed memory");
      u64 os = o->size; u64 q = newHeap(sz, 16, FAM_MALLOC, false); copyBytes(q, p, std::min(os, sz)); freeObj(p, FAM_MALLOC, "realloc"); rv[0] = VC(q); break; }
    case B_free: freeObj(conc(ARG(0)), FAM_MALLOC, "free"); break;
    case B_memalign: { u64 pp = conc(ARG(0)), al = conc(ARG(1)), sz = conc(ARG(2)); if (sz > (1ULL << 31) || (al & (al - 1)) || al < 8) { rv[0] = VC(12); break; } u64 q = newHeap(sz, al, FAM_ALIGNED, false); storeVal(VC(pp), 0, 8, 64, VC(q)); break; }
    case B_memcpy: doMemcpy(ARG(0), ARG(1), ARG(2)); if (n) rv[0] = ARG(0); break;
    case B_memmove: doMemcpy(ARG(0), ARG(1), ARG(2)); if (n) rv[0] = ARG(0); break;
    case B_memset: { Val c = ARG(1); if (wid[1] != 8) c = castV(0, c, wid[1], 8); doMemset(ARG(0), c, ARG(2)); if (n) rv[0] = ARG(0); break; }
    case B_memcmp: { u64 len = conc(ARG(2)), a = conc(ARG(0)), b = conc(ARG(1)); if (!len) break; Obj *x = access(a, len, false), *y = access(b, len, false); Expr *r = mkConst(0, 32); u64 i = len; bool onlyEq = name == "bcmp";
      while (i > 0) { u64 k = i - 1; if (i % 8 == 0 && onlyEq) { Val p = readCell(x, a - x->base + i - 8, 8, 64), q = readCell(y, b - y->base + i - 8, 8, 64); Val ne = binV(O_Eq, 64, p, q); r = mkIte(EX(ne, 1), r, mkConst(1, 32)); i -= 8; continue; }
        Val p = readCell(x, a - x->base + k, 1, 8), q = readCell(y, b - y->base + k, 1, 8);
        if (!p.e && !q.e) { if (p.c != q.c) r = mkConst(p.c < q.c ? (u64)-1 : 1, 32); }
        else { Expr *pe = EX(p, 8), *qe = EX(q, 8); r = mkIte(mkBin(O_Eq, pe, qe), r, mkIte(mkBin(O_Ult, pe, qe), mkConst((u64)-1, 32), mkConst(1, 32))); }
        i--; }
      rv[0] = VE(r); break; }
    case B_strlen: rv[0] = VC(cstr(ARG(0)).size()); break;
    case B_strcmp: rv[0] = VC((u64)(u32)cstr(ARG(0)).compare(cstr(ARG(1)))); break;
    case B_nop: break;
    case B_nop0: break;
    case B_abort: fail("abort", "abort or failed assertion in " + f.f->name);
    case B_terminate: fail("terminate", "std::terminate called");
    case B_trap: fail("unreachable", "reached code marked unreachable in " + f.f->name);
    case B_new: case B_newarr: { u64 sz = conc(ARG(0)); if (sz > (1ULL << 31)) { unwind(0xdead0, 1); return; } rv[0] = VC(newHeap(sz, 16, id == B_new ? FAM_NEW : FAM_NEWARR, false)); break; }
    case B_delete: freeObj(conc(ARG(0)), FAM_NEW, "delete"); break;
    case B_delarr: freeObj(conc(ARG(0)), FAM_NEWARR, "delete[]"); break;
    case B_cxaAlloc: { rv[0] = VC(newHeap(conc(ARG(0)), 16, FAM_NEW, false)); S->live--; Obj *o = writable(find(rv[0].c)); o->kind = K_Global; break; }
    case B_cxaThrow: { u64 o = conc(ARG(0)), ty = conc(ARG(1)); unwind(o, ty); return; }
    case B_throwLen: unwind(0xdead0, 1); return;
    case B_cxaRethrow: { u64 eo = S->th[S->cur].excObj, et = S->th[S->cur].excType; unwind(eo, et); return; }
    case B_cxaBegin: rv[0] = ARG(0); break;
    case B_cxaEnd: case B_cxaFreeExc: break;
    case B_typeid: rv[0] = VC(typeSel(conc(ARG(0)))); break;
    case B_guardAcq: { Val g = loadVal(ARG(0), 0, 1, 8); rv[0] = VC(conc(g) == 0); break; }
    case B_guardRel: storeVal(ARG(0), 0, 1, 8, VC(1)); break;
    case B_ctpop: for (unsigned i = 0; i < n; i++) rv[i] = ARG(0).e || A[i].e ? unV(O_Popcnt, w, A[i]) : VC(__builtin_popcountll(A[i].c)); break;
    case B_ctlz: for (unsigned i = 0; i < n; i++) rv[i] = unV(O_Clz, w, A[i]); break;
    case B_cttz: for (unsigned i = 0; i < n; i++) rv[i] = unV(O_Ctz, w, A[i]); break;
    case B_umax: case B_umin: case B_smax: case B_smin: for (unsigned i = 0; i < n; i++) { Val a = A[i], b = A[off[1] + i]; Op c = id == B_umax || id == B_umin ? O_Ult : O_Slt; Val lt = binV(c, w, a, b); bool mx = id == B_umax || id == B_smax; rv[i] = mx ? iteV(lt, b, a, w) : iteV(lt, a, b, w); } break;
    case B_bswap: for (unsigned i = 0; i < n; i++) { Val a = A[i]; if (!a.e) { rv[i] = VC(__builtin_bswap64(a.c) >> (64 - w)); } else { Expr *r = mkExtract(a.e, 0, 8); for (unsigned k = 8; k < w; k += 8) r = mkConcat(r, mkExtract(a.e, k, 8)); rv[i] = VE(r); } } break;
    case B_bitreverse: for (unsigned i = 0; i < n; i++) { Expr *a = EX(A[i], w); Expr *r = mkExtract(a, 0, 1); for (unsigned k = 1; k < w; k++) r = mkConcat(r, mkExtract(a, k, 1)); rv[i] = VE(r); } break;
    case B_fshl: case B_fshr: for (unsigned i = 0; i < n; i++) { Val a = A[i], b = A[off[1] + i], c = A[off[2] + i]; Val sh = binV(O_URem, w, c, VC(w)); Val inv = binV(O_Sub, w, VC(w), sh);
        if (id == B_fshl) rv[i] = binV(O_Or, w, binV(O_Shl, w, a, sh), binV(O_LShr, w, b, inv)); else rv[i] = binV(O_Or, w, binV(O_LShr, w, b, sh), binV(O_Shl, w, a, inv)); } break; // shift by w yields 0 as required
    case B_uaddsat: for (unsigned i = 0; i < n; i++) { Val a = A[i], b = A[off[1] + i]; Val s = binV(O_Add, w, a, b); rv[i] = iteV(binV(O_Ult, w, s, a), VC(maskw(w)), s, w); } break;
    case B_usubsat: for (unsigned i = 0; i < n; i++) { Val a = A[i], b = A[off[1] + i]; rv[i] = iteV(binV(O_Ult, w, a, b), VC(0), binV(O_Sub, w, a, b), w); } break;
    case B_abs: for (unsigned i = 0; i < n; i++) rv[i] = iteV(binV(O_Slt, w, A[i], VC(0)), binV(O_Sub, w, VC(0), A[i]), A[i], w); break;
    case B_uaddo: { Val s = binV(O_Add, wid[0], ARG(0), ARG(1)); rv[0] = s; rv[1] = binV(O_Ult, wid[0], s, ARG(0)); break; }
    case B_usubo: { rv[0] = binV(O_Sub, wid[0], ARG(0), ARG(1)); rv[1] = binV(O_Ult, wid[0], ARG(0), ARG(1)); break; }
    case B_saddo: { unsigned ww = wid[0]; Val s = binV(O_Add, ww, ARG(0), ARG(1)); rv[0] = s; Val neg = binV(O_Slt, ww, ARG(1), VC(0)); Val lt = binV(O_Slt, ww, s, ARG(0)); rv[1] = binV(O_Xor, 1, neg, lt); break; }
    case B_ssubo: { unsigned ww = wid[0]; Val s = binV(O_Sub, ww, ARG(0), ARG(1)); rv[0] = s; Val pos = binV(O_Slt, ww, VC(0), ARG(1)); Val lt = binV(O_Slt, ww, s, ARG(0)); rv[1] = binV(O_Xor, 1, pos, lt); break; }
    case B_umulo: { unsigned ww = wid[0]; Val a = ARG(0), b = ARG(1); rv[0] = binV(O_Mul, ww, a, b); if (a.e && !b.e) { if (b.c == 0) rv[1] = VC(0); else rv[1] = binV(O_Ult, ww, VC(maskw(ww) / b.c), a); } else if (b.e && !a.e) { if (a.c == 0) rv[1] = VC(0); else rv[1] = binV(O_Ult, ww, VC(maskw(ww) / a.c), b); }
      else { u64 x = conc(a), y = conc(b); unsigned __int128 p = (unsigned __int128)x * y; rv[0] = VC((u64)p & maskw(ww)); rv[1] = VC(p > maskw(ww)); } break; }
    case B_smulo: { unsigned ww = wid[0]; i64 x = sext64(conc(ARG(0)), ww), y = sext64(conc(ARG(1)), ww); __int128 p = (__int128)x * y; rv[0] = VC((u64)p & maskw(ww)); i64 mn = sext64(1ULL << (ww - 1), ww), mx = (i64)(maskw(ww) >> 1); rv[1] = VC(p < mn || p > mx); break; }
    case B_expect: rv[0] = ARG(0); break;
    case B_objectsize: rv[0] = VC(conc(ARG(1)) ? 0 : maskw(w)); break;
    case B_isconst: rv[0] = VC(0); break;
    case B_vastart: { u64 va = f.va; u64 p = conc(ARG(0)); storeVal(VC(p), 0, 4, 32, VC(48)); storeVal(VC(p), 4, 4, 32, VC(176)); storeVal(VC(p), 8, 8, 64, VC(va)); storeVal(VC(p), 16, 8, 64, VC(0)); break; }
    case B_vaend: break;
    case B_loadrel: { u64 p = conc(ARG(0)), o = conc(ARG(1)); Val d = loadVal(VC(p + o), 0, 4, 32); rv[0] = VC(p + (u64)sext64(conc(d), 32)); break; }
    case B_redadd: { unsigned ww = wid[0]; Val r = VC(0); for (unsigned i = 0; i < cnt[0]; i++) r = binV(O_Add, ww, r, A[i]); rv[0] = r; break; }
    case B_redor: { unsigned ww = wid[0]; Val r = VC(0); for (unsigned i = 0; i < cnt[0]; i++) r = binV(O_Or, ww, r, A[i]); rv[0] = r; break; }
    case B_redand: { unsigned ww = wid[0]; Val r = VC(maskw(ww)); for (unsigned i = 0; i < cnt[0]; i++) r = binV(O_And, ww, r, A[i]); rv[0] = r; break; }
    case B_redumax: case B_redumin: { unsigned ww = wid[0]; Val r = A[0]; for (unsigned i = 1; i < cnt[0]; i++) { Val lt = binV(O_Ult, ww, r, A[i]); r = id == B_redumax ? iteV(lt, A[i], r, ww) : iteV(lt, r, A[i], ww); } rv[0] = r; break; }
    // ---- x86 ----
    case B_psadbw: { unsigned nb = cnt[0]; for (unsigned q = 0; q < nb / 8; q++) { Val s = VC(0); for (unsigned k = 0; k < 8; k++) { Val a = A[q * 8 + k], b = A[off[1] + q * 8 + k]; Val lt = binV(O_Ult, 8, a, b); Val d = iteV(lt, binV(O_Sub, 8, b, a), binV(O_Sub, 8, a, b), 8); s = binV(O_Add, 64, s, castV(1, d, 8, 64)); } rv[q] = s; } break; }
    case B_pshufb: { for (unsigned i = 0; i < n; i++) { unsigned base = i & ~15u; Val m = A[off[1] + i];
        if (!m.e) rv[i] = (m.c & 0x80) ? VC(0) : A[base + (m.c & 15)];
        else { Expr *ix = mkExtract(m.e, 0, 4); Expr *r = EX(A[base + 15], 8); for (int k = 14; k >= 0; k--) r = mkIte(mkBin(O_Eq, ix, mkConst(k, 4)), EX(A[base + k], 8), r); r = mkIte(mkExtract(m.e, 7, 1), mkConst(0, 8), r); rv[i] = VE(r); } } break; }
    case B_packsswb: { for (unsigned i = 0; i < 16; i++) { Val a = i < 8 ? A[i] : A[off[1] + i - 8]; Val hi = binV(O_Slt, 16, VC(127), a), lo = binV(O_Slt, 16, a, VC(0xFF80)); Val r = castV(0, a, 16, 8); r = iteV(hi, VC(0x7f), r, 8); r = iteV(lo, VC(0x80), r, 8); rv[i] = r; } break; }
    case B_lddqu: { u64 p = conc(ARG(0)); Obj *o = access(p, n, false); for (unsigned i = 0; i < n; i++) rv[i] = readCell(o, p - o->base + i, 1, 8); break; }
    case B_pcmpestrm: case B_pcmpistrm: {
      bool ex = id == B_pcmpestrm; unsigned ob = ex ? off[2] : off[1]; u64 imm = conc(ex ? ARG(4) : ARG(2));
      if ((imm & 0x4f) != 0x01) throw Fatal{"pcmp*strm mode " + std::to_string(imm)};
      Val a[8], b[8], va[8], vb[8]; for (int k = 0; k < 8; k++) { Val l = A[2 * k], h = A[2 * k + 1]; a[k] = (!l.e && !h.e) ? VC(l.c | h.c << 8) : VE(mkConcat(EX(h, 8), EX(l, 8))); l = A[ob + 2 * k]; h = A[ob + 2 * k + 1]; b[k] = (!l.e && !h.e) ? VC(l.c | h.c << 8) : VE(mkConcat(EX(h, 8), EX(l, 8))); }
      if (ex) { for (int k = 0; k < 8; k++) { va[k] = binV(O_Slt, 32, VC(k), ARG(1)); vb[k] = binV(O_Slt, 32, VC(k), ARG(3)); } }
      else { Val pa = VC(1), pb = VC(1); for (int k = 0; k < 8; k++) { pa = binV(O_And, 1, pa, binV(O_Xor, 1, binV(O_Eq, 16, a[k], VC(0)), VC(1))); va[k] = pa; pb = binV(O_And, 1, pb, binV(O_Xor, 1, binV(O_Eq, 16, b[k], VC(0)), VC(1))); vb[k] = pb; } }
      Val m = VC(0); for (int j = 0; j < 8; j++) { Val r = VC(0); for (int i = 0; i < 8; i++) r = binV(O_Or, 1, r, binV(O_And, 1, va[i], binV(O_Eq, 16, a[i], b[j]))); r = binV(O_And, 1, r, vb[j]);
        if (imm & 0x10) { if (imm & 0x20) { Val nr = binV(O_Xor, 1, r, VC(1)); r = iteV(vb[j], nr, r, 1); } else r = binV(O_Xor, 1, r, VC(1)); }
        m = binV(O_Or, 8, m, iteV(r, VC(1u << j), VC(0), 8)); }
      rv[0] = m; break; } // result vector is <16 x i8>: low byte holds the mask, the rest is zero
    case B_compress: { unsigned el = n; unsigned p = 0; for (unsigned i = 0; i < el; i++) rv[i] = A[off[1] + i]; Val tmp[64]; for (unsigned i = 0; i < el; i++) { Val b = A[off[2] + i]; bool bit = b.e ? decide(b.e) : b.c & 1; if (bit) tmp[p++] = A[i]; } for (unsigned i = 0; i < p; i++) rv[i] = tmp[i]; break; }
    case B_compressstore: { unsigned el = cnt[0]; u64 p = conc(ARG(1)); std::vector<Val> tmp; for (unsigned i = 0; i < el; i++) { Val b = A[off[2] + i]; bool bit = b.e ? decide(b.e) : b.c & 1; if (bit) tmp.push_back(A[i]); } unsigned by = wid[0] / 8; for (size_t i = 0; i < tmp.size(); i++) storeVal(VC(p + i * by), 0, by, wid[0], tmp[i]); break; }
    case B_fabs: rv[0] = VC(conc(ARG(0)) & (maskw(w) >> 1)); break;
    default: throw Fatal{"builtin not implemented: " + name};
  }
  (void)na; finishCall(rv, n);
}

static void doCall(Thread &t, Frame &f, const Inst &I) {
  const i32 *ax = &f.f->aux[I.aux]; i32 fid = ax[0]; Val *R = t.regs.data() + f.regBase; const Val *K = f.f->consts.data();
  Func *cf;
  if (fid >= 0) cf = g_funcs[fid];
  else { u64 a = conc(OP(ax[1])); u64 b = (FUNC_REGION << REGION_BITS) + 4096; if ((a >> REGION_BITS) != FUNC_REGION || (a - b) % 16 || (a - b) / 16 >= g_funcs.size()) fail("memory", "call through an invalid function pointer"); cf = g_funcs[(a - b) / 16]; }
  u32 na = ax[2]; static thread_local std::vector<Val> args; static thread_local std::vector<u32> off, cnt, wid; args.clear(); off.clear(); cnt.clear(); wid.clear();
  for (u32 i = 0; i < na; i++) { i32 o = ax[5 + 3 * i]; u32 n = ax[6 + 3 * i]; off.push_back(args.size()); cnt.push_back(n); wid.push_back(ax[7 + 3 * i]); for (u32 k = 0; k < n; k++) args.push_back(OPL(o, (i32)k)); }
  if (args.empty()) args.push_back(VC(0));
  if (cf->builtin >= 0 && (!cf->defined || cf->builtin <= B_objSize)) { std::vector<Val> a2 = args; std::vector<u32> o2 = off, c2 = cnt, w2 = wid; o2.push_back(0); c2.push_back(0); w2.push_back(0); doBuiltin(t, f, I, cf->builtin, cf->name, a2.data(), o2.data(), c2.data(), w2.data(), na); return; }
  if (!cf->defined) throw Fatal{"call to undefined function " + cf->name};
  std::vector<Val> extra; if (cf->vararg) { u32 fixed = cf->nargs; for (u32 i = fixed; i < na; i++) for (u32 k = 0; k < cnt[i]; k++) { Val v = args[off[i] + k]; if (v.e && wid[i] < 64) v = VE(mkZExt(v.e, 64)); extra.push_back(v); } }
  std::vector<Val> a2 = args; pushFrame(cf, &I, a2.data(), cnt, extra);
}

// ---------------- inline assembly (the small AT&T subset CRoaring uses) ----------------
struct AsmArg { int kind; int reg; i64 imm; int base, idx, scale; i64 disp; }; // 0 reg, 1 imm, 2 mem
static bool parseArg(const std::string &s0, AsmArg &a) {
  std::string s; for (char c : s0) if (c != ' ' && c != '\t') s += c;
  auto num = [&](const std::string &x, int &r) { if (x.size() < 2 || x[0] != '$' || !isdigit(x[1])) return false; r = atoi(x.c_str() + 1); return true; };
  if (s.compare(0, 2, "$$") == 0) { a.kind = 1; a.imm = strtoll(s.c_str() + 2, nullptr, 0); return true; }
  size_t lp = s.find('('); if (lp != std::string::npos) { a.kind = 2; a.disp = lp ? strtoll(s.substr(0, lp).c_str(), nullptr, 0) : 0; std::string in = s.substr(lp + 1, s.find(')') - lp - 1); a.idx = -1; a.scale = 1; size_t c1 = in.find(','); if (!num(in.substr(0, c1), a.base)) return false; if (c1 != std::string::npos) { size_t c2 = in.find(',', c1 + 1); if (!num(in.substr(c1 + 1, c2 - c1 - 1), a.idx)) return false; if (c2 != std::string::npos) a.scale = atoi(in.c_str() + c2 + 1); } return true; }
  if (num(s, a.reg)) { a.kind = 0; return true; } return false;
}
static void doAsm(Thread &t, Frame &f, const Inst &I) {
  const i32 *ax = &f.f->aux[I.aux]; const std::string &tpl = f.f->strs[ax[0]], &cons = f.f->strs[ax[0] + 1]; u32 na = ax[1]; Val *R = t.regs.data() + f.regBase; const Val *K = f.f->consts.data();
  std::vector<std::string> cl; { std::string c; for (char ch : cons) { if (ch == ',') { cl.push_back(c); c.clear(); } else c += ch; } cl.push_back(c); }
  std::vector<Val> reg; int nout = 0; for (auto &c : cl) if (!c.empty() && c[0] == '=') { nout++; reg.push_back(VC(0)); }
  u32 ai = 0; for (auto &c : cl) { if (c.empty() || c[0] == '=' || c[0] == '~') continue; if (ai >= na) throw Fatal{"asm args"}; Val v = OP(ax[2 + ai]); ai++; if (isdigit(c[0])) { reg[atoi(c.c_str())] = v; reg.push_back(v); } else reg.push_back(v); }
  struct L { std::string op; std::vector<AsmArg> a; std::string target; }; std::vector<L> prog; std::map<std::string, size_t> labels;
  size_t p = 0; while (p <= tpl.size()) { size_t e = tpl.find('\n', p); if (e == std::string::npos) e = tpl.size(); std::string line = tpl.substr(p, e - p); p = e + 1; while (!line.empty() && isspace(line[0])) line.erase(0, 1); if (line.empty()) continue;
    if (line.back() == ':') { labels[line.substr(0, line.size() - 1)] = prog.size(); continue; }
    L l; size_t sp = line.find_first_of(" \t"); l.op = line.substr(0, sp); std::string rest = sp == std::string::npos ? "" : line.substr(sp + 1); if (l.op[0] == 'j') { l.target = rest; prog.push_back(l); continue; }
    int depth = 0; std::string cur; std::vector<std::string> parts; for (char c : rest) { if (c == '(') depth++; if (c == ')') depth--; if (c == ',' && !depth) { parts.push_back(cur); cur.clear(); } else cur += c; } parts.push_back(cur); for (auto &s : parts) { AsmArg a{}; if (!parseArg(s, a)) throw Fatal{"asm operand: " + s}; l.a.push_back(a); } prog.push_back(l); }
  auto addr = [&](const AsmArg &a) { Val v = reg[a.base]; if (a.idx >= 0) v = binV(O_Add, 64, v, binV(O_Mul, 64, reg[a.idx], VC(a.scale))); if (a.disp) v = binV(O_Add, 64, v, VC((u64)a.disp)); return v; };
  auto get = [&](const AsmArg &a, unsigned by) { if (a.kind == 0) return reg[a.reg]; if (a.kind == 1) return VC((u64)a.imm); Val v = loadVal(addr(a), 0, by, by * 8); return castV(1, v, by * 8, 64); };
  Val CF = VC(0), ZF = VC(0); noFork = true; size_t pc = 0; u64 guard = 0;
  try { while (pc < prog.size()) { L &l = prog[pc++]; if (++guard > 10000000) throw Fatal{"asm loop"};
    if (l.op == "movzwq") reg[l.a[1].reg] = get(l.a[0], 2);
    else if (l.op == "mov" || l.op == "movq") { Val v = get(l.a[0], 8); if (l.a[1].kind == 2) storeVal(addr(l.a[1]), 0, 8, 64, v); else reg[l.a[1].reg] = v; }
    else if (l.op == "shrx" || l.op == "shlx") { Val c = binV(O_And, 64, get(l.a[0], 8), VC(63)); reg[l.a[2].reg] = binV(l.op == "shrx" ? O_LShr : O_Shl, 64, get(l.a[1], 8), c); }
    else if (l.op == "bts" || l.op == "btr" || l.op == "bt") { Val b = binV(O_And, 64, get(l.a[0], 8), VC(63)); Val &d = reg[l.a[1].reg]; CF = castV(0, binV(O_LShr, 64, d, b), 64, 1); Val m = binV(O_Shl, 64, VC(1), b); if (l.op == "bts") d = binV(O_Or, 64, d, m); else if (l.op == "btr") d = binV(O_And, 64, d, binV(O_Xor, 64, m, VC(~0ULL))); }
    else if (l.op == "sbb") { Val s = get(l.a[0], 8); Val &d = reg[l.a[1].reg]; d = binV(O_Sub, 64, binV(O_Sub, 64, d, s), castV(1, CF, 1, 64)); }
    else if (l.op == "add") { Val &d = reg[l.a[1].reg]; d = binV(O_Add, 64, d, get(l.a[0], 8)); }
    else if (l.op == "sub") { Val &d = reg[l.a[1].reg]; d = binV(O_Sub, 64, d, get(l.a[0], 8)); }
    else if (l.op == "cmp") { ZF = binV(O_Eq, 64, get(l.a[0], 8), get(l.a[1], 8)); }
    else if (l.op == "jnz" || l.op == "jne" || l.op == "jz" || l.op == "je") { bool z = ZF.e ? decide(ZF.e) : ZF.c; std::string tg = l.target; if (!tg.empty() && (tg.back() == 'b' || tg.back() == 'f')) tg.pop_back(); bool nz = l.op == "jnz" || l.op == "jne"; if (nz ? !z : z) { if (!labels.count(tg)) throw Fatal{"asm label"}; pc = labels[tg]; } }
    else throw Fatal{"asm instruction " + l.op}; } } catch (...) { noFork = false; throw; }
  noFork = false;
  for (int i = 0; i < nout && i < I.lanes; i++) R[I.dst + i] = (I.lanes == 1 && I.w < 64) ? castV(0, reg[i], 64, I.w) : reg[i];
  f.ip++;
}
