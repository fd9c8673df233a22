// Natively modelled functions.
#define BI(name) static Step name(State &s, const Inst &in, vector<Value> &a, vector<Value> &r)
static string readCStr(State &s, u64 p) { string o; for (int i = 0; i < 200; i++) { Value v; Obj *ob = findObj(s, p + i); if (!ob || p + i >= ob->base + ob->size) break; v = readVal(s, ob, p + i - ob->base, 1, 8); if (v.e || !v.v) break; o += (char)v.v; } return o; }
static void copyBytes(State &s, u64 src, u64 dst, u64 n) { // both validated
  if (!n) return;
  struct B { u8 c; E e; bool init; }; vector<B> tmp(n); Obj *so = findObj(s, src); u64 off = src - so->base;
  for (u64 i = 0; i < n; i++) { Page *p = so->pages[(off + i) / PAGE].p; unsigned k = (off + i) % PAGE; if (p && p->isInit(k)) tmp[i] = {p->c[k], p->s ? p->s[k] : nullptr, true}; else tmp[i] = {0, nullptr, so->zero}; }
  Obj *d = writable(s, dst); u64 doff = dst - d->base;
  for (u64 i = 0; i < n;) {
    Page *p = pageMut(d, (doff + i) / PAGE); unsigned k = (doff + i) % PAGE; u64 m = min<u64>(n - i, PAGE - k);
    for (u64 j = 0; j < m; j++) { auto &b = tmp[i + j]; unsigned q = k + j; if (b.init) { p->setInit(q); p->c[q] = b.c; } else p->init[q >> 6] &= ~(1ull << (q & 63)); if (b.e && !p->s) p->s = (E *)calloc(PAGE, sizeof(E)); if (p->s) p->s[q] = b.e; }
    i += m; }
}
// validated concrete address for an access of n bytes (pointer enumerated if symbolic)
static bool concAddr(State &s, Value p, u64 n, bool wr, u64 &out) {
  if (n == 0) { out = p.e ? 0 : p.v; return true; }
  Obj *o; u64 off; E so; if (!resolve(s, p, n, wr, o, off, so)) return false;
  if (so) { u64 base = o->base; off = concretize(s, {0, so}, 64); out = base + off; } else out = o->base + off;
  if (s.th.size() > 1 && !raceAccess(s, out, n, wr, wr ? "write" : "read")) return false;
  return true;
}
BI(b_memcpy) { (void)in; u64 n = concretize(s, a[2], 64), d, q; if (n == 0) { r = {a[0]}; return NEXT; } if (!concAddr(s, a[0], n, true, d) || !concAddr(s, a[1], n, false, q)) return DEAD; copyBytes(s, q, d, n); r = {VC(d)}; return NEXT; }
BI(b_memset) {
  u64 n = concretize(s, a[2], 64), d; if (n == 0) { r = {a[0]}; return NEXT; } if (!concAddr(s, a[0], n, true, d)) return DEAD; (void)in;
  Obj *o = writable(s, d); u64 off = d - o->base; E v = mkExtract(toE(a[1], in.argw[1]), 0, 8);
  if (isC(v)) { vector<u8> buf(n, (u8)v->k); writeConc(o, off, buf.data(), n); } else for (u64 i = 0; i < n; i++) writeByteE(o, off + i, v);
  r = {VC(d)}; return NEXT; }
static bool rdByte(State &s, u64 p, E &o) { Obj *ob = findObj(s, p); if (!ob || p < ob->base || p >= ob->base + ob->size) return false; o = readByteE(s, ob, p - ob->base); return true; }
static Step cmpImpl(State &s, vector<Value> &a, vector<Value> &r, bool order) {
  u64 n = concretize(s, a[2], 64), p, q; if (n == 0) { r = {VC(0)}; return NEXT; } if (!concAddr(s, a[0], n, false, p) || !concAddr(s, a[1], n, false, q)) return DEAD;
  E res = order ? mkC(0, 32) : mkFalse(); vector<E> x(n), y(n); for (u64 i = 0; i < n; i++) { rdByte(s, p + i, x[i]); rdByte(s, q + i, y[i]); }
  if (order) { for (u64 i = n; i-- > 0;) res = mkIte(mkEq(x[i], y[i]), res, mkBin(ESub, mkZExt(x[i], 32), mkZExt(y[i], 32))); r = {V(res)}; }
  else { for (u64 i = n; i-- > 0;) res = mkOr(mkNot(mkEq(x[i], y[i])), res); r = {V(mkZExt(res, 32))}; }
  return NEXT; }
BI(b_memcmp) { (void)in; return cmpImpl(s, a, r, true); }
BI(b_bcmp) { (void)in; return cmpImpl(s, a, r, false); }
BI(b_memchr) { (void)in; u64 n = concretize(s, a[2], 64), p; if (n == 0) { r = {VC(0)}; return NEXT; } 
  // only bytes up to the match are accessed, but the caller's range must be valid for the functions in use here
  if (!concAddr(s, a[0], 1, false, p)) return DEAD; E c = mkExtract(toE(a[1], 32), 0, 8);
  for (u64 i = 0; i < n; i++) { E b; if (!rdByte(s, p + i, b)) { Obj *o; u64 off; E so; resolve(s, VC(p + i), 1, false, o, off, so); return DEAD; } if (forkOn(s, mkEq(b, c))) { r = {VC(p + i)}; return NEXT; } }
  r = {VC(0)}; return NEXT; }
BI(b_strlen) { (void)in; u64 p; if (!concAddr(s, a[0], 1, false, p)) return DEAD; for (u64 i = 0;; i++) { E b; if (!rdByte(s, p + i, b)) { Obj *o; u64 off; E so; resolve(s, VC(p + i), 1, false, o, off, so); return DEAD; } if (forkOn(s, mkEq(b, mkC(0, 8)))) { r = {VC(i)}; return NEXT; } } }
BI(b_strcmp) { (void)in; u64 p, q; if (!concAddr(s, a[0], 1, false, p) || !concAddr(s, a[1], 1, false, q)) return DEAD;
  for (u64 i = 0;; i++) { E x, y; if (!rdByte(s, p + i, x) || !rdByte(s, q + i, y)) { reportHere(s, "memory", "strcmp out of bounds"); return DEAD; } if (!forkOn(s, mkEq(x, y))) { r = {V(mkBin(ESub, mkZExt(x, 32), mkZExt(y, 32)))}; return NEXT; } if (forkOn(s, mkEq(x, mkC(0, 8)))) { r = {VC(0)}; return NEXT; } } }
// ---- heap
static Step doAlloc(State &s, Value sz, vector<Value> &r, const char *nm, bool zero, u8 kind) {
  u64 n = concretize(s, sz, 64);
  if (n > (256ull << 20)) { reportHere(s, "alloc", "allocation of " + to_string(n) + " bytes"); return DEAD; }
  u64 b = allocHeap(s, n, nm); Obj *o = writable(s, b); o->zero = zero; o->allocKind = kind; r = {VC(b)}; return NEXT; }
BI(b_malloc) { (void)in; return doAlloc(s, a[0], r, "malloc", false, 1); }
BI(b_calloc) { (void)in; return doAlloc(s, V(mkBin(EMul, toE(a[0], 64), toE(a[1], 64))), r, "calloc", true, 1); }
BI(b_new) { (void)in; return doAlloc(s, a[0], r, "new", false, 2); }
BI(b_newarr) { (void)in; return doAlloc(s, a[0], r, "new[]", false, 3); }
static Step doFree(State &s, Value p, u8 kind) {
  u64 v = concretize(s, p, 64); if (!v) return NEXT; u64 sl; Table *t; Entry *e = findEntry(s, v, sl, t);
  if (!e || !e->o) { reportHere(s, "memory", e && e->freed ? "double free" : "free of an invalid pointer"); return DEAD; }
  if (e->o->base != v || e->o->kind != OHeap) { reportHere(s, "memory", "free of a pointer that does not start a heap object"); return DEAD; }
  if (e->o->allocKind != kind) { reportHere(s, "memory", "mismatched allocation and deallocation functions"); return DEAD; }
  if (s.th.size() > 1 && !raceAccess(s, v, e->o->size, true, "deallocation")) return DEAD;
  freeObj(s, v); s.liveHeap--; return NEXT; }
BI(b_free) { (void)in; (void)r; return doFree(s, a[0], 1); }
BI(b_delete) { (void)in; (void)r; return doFree(s, a[0], 2); }
BI(b_deletearr) { (void)in; (void)r; return doFree(s, a[0], 3); }
BI(b_realloc) { (void)in; u64 n = concretize(s, a[1], 64), p = concretize(s, a[0], 64); u64 b = allocHeap(s, n, "realloc"); Obj *o = writable(s, b); o->allocKind = 1; if (p) { Obj *q = findObj(s, p); if (!q) { reportHere(s, "memory", "realloc of invalid pointer"); return DEAD; } copyBytes(s, p, b, min(q->size, n)); doFree(s, VC(p), 1); } r = {VC(b)}; return NEXT; }
// ---- harness API
static string uniqName(State &s, const string &n) { int k = s.nameSeq[n]++; return k ? n + "." + to_string(k) : n; }
static E freshInput(State &s, const string &nm, unsigned w, u8 kind) { string n = uniqName(s, nm); E v = mkVar(n, w, false); s.in.push_back({n, kind, (u16)w, v, 0}); return v; }
template <unsigned W> static Step b_fresh(State &s, const Inst &in, vector<Value> &a, vector<Value> &r) { (void)in; string n = readCStr(s, concretize(s, a[0], 64)); r = {V(freshInput(s, n, W, 0))}; return NEXT; }
BI(b_fsbytes) { (void)in; u64 n = concretize(s, a[1], 64); string nm = readCStr(s, concretize(s, a[2], 64)); u64 p; if (n == 0) return NEXT; if (!concAddr(s, a[0], n, true, p)) return DEAD; for (u64 i = 0; i < n; i++) { E v = freshInput(s, nm + "[" + to_string(i) + "]", 8, 0); Obj *o = writable(s, p); writeByteE(o, p - o->base + i, v); } (void)r; return NEXT; }
BI(b_fschoose) { // concrete alternatives 0..n-1
  u64 n = concretize(s, a[0], 32); string nm = readCStr(s, concretize(s, a[1], 64));
  if (n == 0) die("fs_choose(0)");
  E v = freshInput(s, nm, 32, 1);
  for (u64 k = n; k-- > 1;) { State *o = cloneState(s); addConstraint(o->pc, mkEq(v, mkC(k, 32))); o->pc.model.set((int)v->k, k); Frame *f = top(*o); setRet(f, in, {VC(k)}); advance(f, in); g_work.push_back(o); }
  addConstraint(s.pc, mkEq(v, mkC(0, 32))); s.pc.model.set((int)v->k, 0); r = {VC(0)}; return NEXT; }
BI(b_fsassume) { (void)in; (void)r; E c = mkNot(mkEq(toE(a[0], in.argw[0]), mkC(0, in.argw[0]))); if (isC(c)) { if (!c->k) { g_st.pathsAssumed++; return DEAD; } return NEXT; } Model m; int q = feasible(s.pc, c, m); if (q == -1) incomplete(s, "solver gave up on an assumption"); if (q != 1) { g_st.pathsAssumed++; return DEAD; } addConstraint(s.pc, c); s.pc.model = m; return NEXT; }
BI(b_fsassert) {
  (void)r; g_st.asserts++; E c = mkNot(mkEq(toE(a[0], in.argw[0]), mkC(0, in.argw[0]))); string msg = readCStr(s, concretize(s, a[1], 64));
  if (isC(c)) { if (!c->k) { reportHere(s, "assert", msg); return DEAD; } return NEXT; }
  Model m; int q = feasible(s.pc, mkNot(c), m); if (q == -1) incomplete(s, "solver gave up on an assertion");
  if (q == 1) { report(s, "assert", msg, m); Model m2; if (feasible(s.pc, c, m2) != 1) return DEAD; addConstraint(s.pc, c); s.pc.model = m2; }
  return NEXT; }
BI(b_fsreach) { (void)in; (void)r; g_reach[readCStr(s, concretize(s, a[0], 64))]++; return NEXT; }
BI(b_fsobserve) { (void)in; (void)r; s.obs.push_back({64, a[0]}); return NEXT; }
BI(b_fsconc) { (void)in; u64 v = concretize(s, a[0], 64); r = {VC(v)}; return NEXT; }
BI(b_fsparam) { (void)in; string n = readCStr(s, concretize(s, a[0], 64)); auto it = g_params.find(n); r = {it == g_params.end() ? a[1] : VC(it->second)}; return NEXT; }
BI(b_fsprint) { (void)in; (void)r; if (g_trace) { string n = readCStr(s, concretize(s, a[0], 64)); fprintf(stderr, "[%s] %s\n", n.c_str(), a[1].e ? showE(a[1].e).c_str() : to_string(a[1].v).c_str()); } return NEXT; }
BI(b_fssym) { (void)in; (void)s; (void)a; r = {VC(1)}; return NEXT; }
BI(b_fsend) { (void)in; (void)a; (void)r; s.mainDone = true; return DEAD; }
BI(b_fslive) { (void)in; (void)a; r = {VC(s.liveHeap)}; return NEXT; }
BI(b_fsincomplete) { (void)in; (void)r; incomplete(s, readCStr(s, concretize(s, a[0], 64))); return DEAD; }
BI(b_fsclock) { (void)in; u64 d = concretize(s, a[0], 64); s.clock += d; r = {VC(s.clock)}; return NEXT; }
BI(b_fskvset) { (void)in; (void)r; s.kv[concretize(s, a[0], 64)] = concretize(s, a[1], 64); return NEXT; }
BI(b_fskvget) { (void)in; r = {VC(s.kv[concretize(s, a[0], 64)])}; return NEXT; }
BI(b_fsite) { (void)in; (void)s; E c = mkNot(mkEq(toE(a[0], in.argw[0]), mkC(0, in.argw[0]))); r = {selectV(V(c), a[1], a[2], 64)}; return NEXT; }
// ---- abnormal ends
BI(b_abort) { (void)in; (void)a; (void)r; reportHere(s, "abort", "abort() called"); return DEAD; }
BI(b_terminate) { (void)in; (void)a; (void)r; reportHere(s, "abort", "std::terminate() called"); return DEAD; }
BI(b_trap) { (void)in; (void)a; (void)r; reportHere(s, "ub", "undefined behaviour trap (sanitizer check failed)"); return DEAD; }
BI(b_glibcxx_assert) { (void)in; (void)r; string f = readCStr(s, a.size() > 2 && !a[2].e ? a[2].v : 0), c = readCStr(s, a.size() > 3 && !a[3].e ? a[3].v : 0); reportHere(s, "precondition", "standard library precondition violated: " + c); (void)f; return DEAD; }
BI(b_purevirtual) { (void)in; (void)a; (void)r; reportHere(s, "memory", "pure virtual call"); return DEAD; }
BI(b_exit) { (void)in; (void)a; (void)r; reportHere(s, "abort", "exit() called"); return DEAD; }
BI(b_nop) { (void)in; (void)s; (void)a; (void)r; return NEXT; }
BI(b_zero) { (void)in; (void)s; (void)a; r = {VC(0)}; return NEXT; }
BI(b_id) { (void)in; (void)s; r = {a[0]}; return NEXT; }
// ---- exceptions
BI(b_cxa_alloc) { (void)in; u64 n = concretize(s, a[0], 64); u64 b = allocHeap(s, n, "exception"); r = {VC(b)}; return NEXT; }
BI(b_cxa_free) { (void)in; (void)r; freeObj(s, concretize(s, a[0], 64)); s.liveHeap--; return NEXT; }
BI(b_cxa_throw) { (void)in; (void)r; u64 o = concretize(s, a[0], 64); s.exc[o] = {concretize(s, a[1], 64), concretize(s, a[2], 64), 0, 0, false}; return unwind(s, o); }
BI(b_cxa_begin) { (void)in; u64 o = concretize(s, a[0], 64); s.th[s.cur].caught.push_back(o); s.exc[o].handlers++; s.exc[o].rethrown = false; r = {VC(o)}; return NEXT; }
BI(b_cxa_end) {
  (void)a; (void)r; auto &c = s.th[s.cur].caught; if (c.empty()) return NEXT; u64 o = c.back(); c.pop_back(); auto &x = s.exc[o]; x.handlers--;
  if (x.handlers <= 0 && !x.rethrown && x.refs == 0) {
    u64 d = x.dtor; s.exc.erase(o);
    if (d && d >= FBASE) { Fn *fn = g_fnByIdx[(d - FBASE) / 16 - 1]; if (!fn->F->isDeclaration()) { pushFrame(s, fn, {VC(o)}, nullptr); return AGAIN; } }
  }
  (void)in; return NEXT; }
BI(b_cxa_rethrow) { (void)in; (void)a; (void)r; auto &c = s.th[s.cur].caught; if (c.empty()) { reportHere(s, "abort", "rethrow without exception"); return DEAD; } u64 o = c.back(); s.exc[o].rethrown = true; return unwind(s, o); }
BI(b_typeid_for) { (void)in; r = {VC((u64)selOf(concretize(s, a[0], 64)))}; return NEXT; }
BI(b_cur_exc) { (void)in; (void)r; u64 p = concretize(s, a[0], 64); auto &c = s.th[s.cur].caught; u64 o = c.empty() ? 0 : c.back(); if (o) s.exc[o].refs++; if (!storeVal(s, VC(p), 8, 64, VC(o))) return DEAD; return NEXT; }
BI(b_rethrow_exc) { (void)in; (void)r; Value v; if (!loadVal(s, a[0], 8, 64, v)) return DEAD; u64 o = concretize(s, v, 64); s.exc[o].rethrown = true; return unwind(s, o); }
BI(b_init_primary) { (void)in; u64 o = concretize(s, a[0], 64); s.exc[o] = {concretize(s, a[1], 64), concretize(s, a[2], 64), 0, 1, false}; r = {a[0]}; return NEXT; }
BI(b_dyncast) {
  (void)in; u64 p = concretize(s, a[0], 64), dst = concretize(s, a[2], 64); Value vt, ti, ot; if (!loadVal(s, VC(p), 8, 64, vt)) return DEAD; u64 v = concretize(s, vt, 64);
  if (!loadVal(s, VC(v - 8), 8, 64, ti) || !loadVal(s, VC(v - 16), 8, 64, ot)) return DEAD; u64 adj = 0;
  if (isSubtype(ti.v, dst, adj)) r = {VC(p + ot.v + adj)}; else r = {VC(0)}; return NEXT; }
static Step schedule(State &s, bool mustSwitch);
BI(b_guard_acq) { (void)in; Value v; Thread &t = s.th[s.cur]; u64 g = concretize(s, a[0], 64); bool waited = t.st == TMutex; if (waited) { t.chosen = false; t.st = TRun; }
  if (!loadVal(s, VC(g), 1, 8, v)) return DEAD; if (concretize(s, v, 8)) { hbAcquire(s, g); r = {VC(0)}; return NEXT; }
  if (s.th.size() > 1) { Mtx &x = s.mtx[g]; if (x.owner >= 0) { Thread &u = s.th[s.cur]; u.st = TMutex; u.wait = g; return schedule(s, true); } x.owner = s.cur; hbAcquire(s, g); }
  r = {VC(1)}; return NEXT; }
BI(b_guard_rel) { (void)in; (void)r; u64 g = concretize(s, a[0], 64); if (!storeVal(s, VC(g), 1, 8, VC(1))) return DEAD; s.mtx[g].owner = -1; hbRelease(s, g); return NEXT; }
// ---- integer intrinsics
template <int K> static Step b_minmax(State &s, const Inst &in, vector<Value> &a, vector<Value> &r) { (void)s; unsigned w = in.w; E x = toE(a[0], w), y = toE(a[1], w); r = {V(K == 0 ? mkIte(mkUlt(x, y), x, y) : K == 1 ? mkIte(mkUlt(x, y), y, x) : K == 2 ? mkIte(mkSlt(x, y), x, y) : mkIte(mkSlt(x, y), y, x))}; return NEXT; }
BI(b_abs) { (void)s; unsigned w = in.w; E x = toE(a[0], w); r = {V(mkIte(mkSlt(x, mkC(0, w)), mkBin(ESub, mkC(0, w), x), x))}; return NEXT; }
BI(b_bswap) { (void)s; unsigned w = in.w; E x = toE(a[0], w), o = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, i * 8, 8); o = o ? mkConcat(o, b) : b; } r = {V(o)}; return NEXT; }
BI(b_bitreverse) { (void)s; unsigned w = in.w; E x = toE(a[0], w), o = nullptr; for (unsigned i = 0; i < w; i++) { E b = mkExtract(x, i, 1); o = o ? mkConcat(o, b) : b; } r = {V(o)}; return NEXT; }
BI(b_ctpop) { (void)s; unsigned w = in.w; E x = toE(a[0], w), o = mkC(0, w); for (unsigned i = 0; i < w; i++) o = mkBin(EAdd, o, mkZExt(mkExtract(x, i, 1), w)); r = {V(o)}; return NEXT; }
BI(b_ctlz) { (void)s; unsigned w = in.w; E x = toE(a[0], w), o = mkC(w, w); for (unsigned i = 0; i < w; i++) o = mkIte(mkExtract(x, i, 1), mkC(w - 1 - i, w), o); r = {V(o)}; return NEXT; }
BI(b_cttz) { (void)s; unsigned w = in.w; E x = toE(a[0], w), o = mkC(w, w); for (unsigned i = w; i-- > 0;) o = mkIte(mkExtract(x, i, 1), mkC(i, w), o); r = {V(o)}; return NEXT; }
template <int K> static Step b_fsh(State &s, const Inst &in, vector<Value> &a, vector<Value> &r) { (void)s; unsigned w = in.w; E x = toE(a[0], w), y = toE(a[1], w), k = mkBin(EURem, toE(a[2], w), mkC(w, w)); E z = mkEq(k, mkC(0, w)); E o = K == 0 ? mkIte(z, x, mkBin(EOr, mkBin(EShl, x, k), mkBin(ELShr, y, mkBin(ESub, mkC(w, w), k)))) : mkIte(z, y, mkBin(EOr, mkBin(EShl, x, mkBin(ESub, mkC(w, w), k)), mkBin(ELShr, y, k))); r = {V(o)}; return NEXT; }
template <int K> static Step b_ovf(State &s, const Inst &in, vector<Value> &a, vector<Value> &r) {
  (void)s; unsigned w = in.w; E x = toE(a[0], w), y = toE(a[1], w); unsigned W = (K / 2 == 2) ? 2 * w : w + 1; if (W > 128) W = 128; bool sg = K & 1;
  u8 op = K / 2 == 0 ? EAdd : K / 2 == 1 ? ESub : EMul; E res = mkBin(op, x, y);
  E X = sg ? mkSExt(x, W) : mkZExt(x, W), Y = sg ? mkSExt(y, W) : mkZExt(y, W), R = mkBin(op, X, Y); E ov = mkNot(mkEq(R, sg ? mkSExt(res, W) : mkZExt(res, W)));
  if (K / 2 == 0 && !sg) ov = mkUlt(res, x); if (K / 2 == 1 && !sg) ov = mkUlt(x, y);
  if (K / 2 == 2 && !sg && isC(y) && cval(y)) ov = mkUlt(mkC128(maskw128(w) / cval(y), w), x);
  r = {V(res), V(ov)}; return NEXT; }
template <int K> static Step b_sat(State &s, const Inst &in, vector<Value> &a, vector<Value> &r) { (void)s; unsigned w = in.w; E x = toE(a[0], w), y = toE(a[1], w); if (K == 0) r = {V(mkIte(mkUlt(x, y), mkC(0, w), mkBin(ESub, x, y)))}; else { E t = mkBin(EAdd, x, y); r = {V(mkIte(mkUlt(t, x), mkC128(maskw128(w), w), t))}; } return NEXT; }
BI(b_isconst) { (void)s; (void)in; r = {VC(0)}; (void)a; return NEXT; }
BI(b_objsize) { (void)s; (void)in; (void)a; r = {VC(~0ull & maskw(in.w))}; return NEXT; }
BI(b_loadrel) { (void)in; Value p = V(mkBin(EAdd, toE(a[0], 64), toE(a[1], in.argw[1] == 32 ? 64 : 64))); if (in.argw[1] == 32) p = V(mkBin(EAdd, toE(a[0], 64), mkSExt(toE(a[1], 32), 64))); Value v; if (!loadVal(s, p, 4, 32, v)) return DEAD; r = {V(mkBin(EAdd, toE(a[0], 64), mkSExt(toE(v, 32), 64)))}; return NEXT; }
BI(b_tls) { (void)in; u64 g = concretize(s, a[0], 64); Thread &t = s.th[s.cur]; if (s.cur == 0) { r = {VC(g)}; return NEXT; } auto it = t.tls.find(g); if (it == t.tls.end()) { Obj *o = findObj(s, g); u64 n = allocHeap(s, o->size, "tls"); s.liveHeap--; { Obj *no = writable(s, n); no->zero = true; } 
    // initial image
    auto *gv = globalAt(g); if (gv && gv->hasInitializer() && !gv->getInitializer()->isNullValue()) { vector<Value> vs; evalConst(gv->getInitializer(), vs); vector<pair<L::Type *, u64>> lt; leafTypes(gv->getValueType(), 0, lt); Obj *no = writable(s, n); for (size_t i = 0; i < vs.size(); i++) writeVal(no, lt[i].second, g_dl->getTypeStoreSize(lt[i].first), bitw(lt[i].first), vs[i]); }
    it = s.th[s.cur].tls.insert({g, n}).first; } r = {VC(it->second)}; return NEXT; }
BI(b_lifetime) { (void)in; (void)s; (void)a; (void)r; return NEXT; }
// ---- floating point
BI(b_fabs) { (void)s; r = {V(mkFP(EFAbs, in.w, toE(a[0], in.w), nullptr))}; return NEXT; }
template <int K> static Step b_fmath(State &s, const Inst &in, vector<Value> &a, vector<Value> &r) {
  unsigned w = in.argw[0]; E x = toE(a[0], w); if (K == 3) { r = {V(mkFP(EFSqrt, w, x, nullptr))}; return NEXT; }
  if (!isC(x) || (a.size() > 1 && a[1].e && !isC(a[1].e))) { incomplete(s, "floating point function on a symbolic value"); return DEAD; }
  long double v = fpGet(cval(x), w), y = a.size() > 1 ? fpGet(cval(toE(a[1], w)), w) : 0, o = 0; switch (K) { case 0: o = floorl(v); break; case 1: o = ceill(v); break; case 2: o = truncl(v); break; case 4: o = fmodl(v, y); break; case 5: o = copysignl(v, y); break; case 6: o = rintl(v); break; case 7: o = roundl(v); break; }
  r = {V(mkC128(fpPut(o, w), w))}; return NEXT; }
BI(b_fma) { unsigned w = in.w; r = {V(mkFP(EFAdd, w, mkFP(EFMul, w, toE(a[0], w), toE(a[1], w)), toE(a[2], w)))}; (void)s; return NEXT; }
BI(b_isfpclass) { (void)s; unsigned w = in.argw[0]; u64 m = a[1].v; E x = toE(a[0], w); 
  unsigned eb = w == 64 ? 11 : w == 32 ? 8 : 15; unsigned mb = w == 80 ? 63 : w - 1 - eb; E ex = mkExtract(x, w - 1 - eb, eb), mt = mkExtract(x, 0, mb), sg = mkExtract(x, w - 1, 1); E allOnes = mkEq(ex, mkC(maskw(eb), eb)), mz = mkEq(mt, mkC(0, mb)), ez = mkEq(ex, mkC(0, eb)); E res = mkFalse();
  if (m & 3) res = mkOr(res, mkAnd(allOnes, mkNot(mz)));
  E inf = mkAnd(allOnes, mz); if (m & 4) res = mkOr(res, mkAnd(inf, sg)); if (m & 0x200) res = mkOr(res, mkAnd(inf, mkNot(sg)));
  E zero = mkAnd(ez, mz); if (m & 0x20) res = mkOr(res, mkAnd(zero, sg)); if (m & 0x40) res = mkOr(res, mkAnd(zero, mkNot(sg)));
  E sub = mkAnd(ez, mkNot(mz)); if (m & 0x10) res = mkOr(res, mkAnd(sub, sg)); if (m & 0x80) res = mkOr(res, mkAnd(sub, mkNot(sg)));
  E nor = mkAnd(mkNot(allOnes), mkNot(ez)); if (m & 8) res = mkOr(res, mkAnd(nor, sg)); if (m & 0x100) res = mkOr(res, mkAnd(nor, mkNot(sg)));
  r = {V(res)}; return NEXT; }
// text <-> long double on concrete text only (used by the std::stold family models)
BI(b_strtofp) { (void)in; u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64), w = concretize(s, a[2], 64); string t; for (u64 i = 0; i < n; i++) { E b; if (!rdByte(s, p + i, b)) return DEAD; u64 c = concretize(s, V(b), 8); t += (char)c; }
  errno = 0; E v; unsigned bits; if (w == 16) { v = mkC128(ld2bits(strtold(t.c_str(), nullptr)), 80); bits = 80; } else if (w == 8) { double d = strtod(t.c_str(), nullptr); u64 q; memcpy(&q, &d, 8); v = mkC(q, 64); bits = 64; } else { float d = strtof(t.c_str(), nullptr); u32 q; memcpy(&q, &d, 4); v = mkC(q, 32); bits = 32; }
  if (!errno && !storeVal(s, a[3], bits / 8, bits, V(v))) return DEAD; r = {VC((u64)(errno == ERANGE ? ERANGE : 0))}; errno = 0; return NEXT; }
BI(b_fmtld) { (void)in; /* (char* buf, size, fmt char, precision, long double) */ u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); int prec = (int)concretize(s, a[3], 32); char fc = (char)concretize(s, a[2], 8); E x = toE(a[4], 80); if (!isC(x)) { incomplete(s, "formatting of a symbolic floating point value"); return DEAD; } char fmt[16]; if (prec < 0) snprintf(fmt, 16, "%%L%c", fc); else snprintf(fmt, 16, "%%.%dL%c", prec, fc); vector<char> buf(n ? n : 1); int k = snprintf(buf.data(), buf.size(), fmt, bits2ld(cval(x))); for (u64 i = 0; i < n && (int)i <= k; i++) if (!storeVal(s, VC(p + i), 1, 8, VC((u8)buf[i]))) return DEAD; r = {VC((u64)k & 0xffffffff)}; return NEXT; }
// ---- threads
BI(b_thcreate) {
  (void)in; Step st; if (!syncPoint(s, st)) return st; u64 fn = concretize(s, a[0], 64); Fn *f = g_fnByIdx.at((fn - FBASE) / 16 - 1); decode(f);
  int id = (int)s.th.size(); if (id > 12) { incomplete(s, "more than 12 threads"); return DEAD; } s.th.push_back(Thread()); s.s.push_back(Table());
  Frame *fr = new Frame(); fr->fn = f; fr->regs.assign(f->nregs, Value{0, nullptr}); fr->regs[f->argRegs[0]] = a[1]; s.th[id].fr.push_back(Ref<Frame>(fr)); { auto &c = vcOf(s, id); auto &v = vcOf(s, s.cur); vcJoin(c, v); v[s.cur]++; } r = {VC((u64)id + 1)}; return NEXT; }
BI(b_thjoin) { (void)in; (void)r; Step st; u64 id = concretize(s, a[0], 64) - 1; if (id >= s.th.size()) { reportHere(s, "thread", "join of an invalid thread"); return DEAD; } Thread &t = s.th[s.cur];
  if (s.th[id].st == TDone) { vcJoin(vcOf(s, s.cur), vcOf(s, (int)id)); t.st = TRun; t.chosen = false; return NEXT; }
  if (t.st != TJoin && !syncPoint(s, st)) return st; s.th[s.cur].st = TJoin; s.th[s.cur].wait = id; return schedule(s, true); }
BI(b_self) { (void)in; (void)a; r = {VC((u64)s.cur + 1)}; return NEXT; }
BI(b_yield) { (void)in; (void)a; (void)r; Step st; if (!syncPoint(s, st)) return st; r = {VC(0)}; return NEXT; }
BI(b_mlock) {
  (void)in; Step st; Thread &t = s.th[s.cur]; u64 m = concretize(s, a[0], 64);
  if (t.st == TMutex) { t.chosen = false; t.st = TRun; Mtx &x = s.mtx[m]; if (x.owner >= 0) { t.st = TMutex; return schedule(s, true); } x.owner = s.cur; hbAcquire(s, m); r = {VC(0)}; return NEXT; }
  if (!syncPoint(s, st)) return st; Mtx &x = s.mtx[m];
  if (x.owner >= 0) { if (x.owner == s.cur) { reportHere(s, "deadlock", "thread locks a mutex it already holds"); return DEAD; } s.th[s.cur].st = TMutex; s.th[s.cur].wait = m; return schedule(s, true); }
  x.owner = s.cur; hbAcquire(s, m); r = {VC(0)}; return NEXT; }
BI(b_mtry) { (void)in; Step st; if (!syncPoint(s, st)) return st; u64 m = concretize(s, a[0], 64); Mtx &x = s.mtx[m]; if (x.owner >= 0) { r = {VC(16)}; return NEXT; } x.owner = s.cur; hbAcquire(s, m); r = {VC(0)}; return NEXT; }
BI(b_munlock) { (void)in; u64 m = concretize(s, a[0], 64); Mtx &x = s.mtx[m]; hbRelease(s, m); if (x.owner != s.cur) { reportHere(s, "thread", "unlock of a mutex the thread does not hold"); return DEAD; } x.owner = -1; r = {VC(0)}; return NEXT; }
static Step condWait(State &s, u64 cond, u64 mutex, bool timed, u64 deadline, vector<Value> &r) {
  Thread &t = s.th[s.cur]; Step st;
  if (t.st == TCond) { // resumed: runnable() guaranteed that the mutex is free
    t.chosen = false; t.st = TRun; bool to = !t.notified; t.notified = false; if (to && deadline > s.clock) s.clock = deadline; s.mtx[mutex].owner = s.cur; hbAcquire(s, mutex); r = {VC(to ? 110 : 0)}; return NEXT; }
  if (!syncPoint(s, st)) return st;
  Mtx &x = s.mtx[mutex]; if (x.owner != s.cur) { reportHere(s, "thread", "condition wait without holding the mutex"); return DEAD; }
  x.owner = -1; hbRelease(s, mutex); Thread &u = s.th[s.cur]; u.st = TCond; u.wait = cond; u.mutex = mutex; u.timed = timed; u.deadline = deadline; u.notified = false; return schedule(s, true); }
BI(b_cvwait) { (void)in; Value m; if (!loadVal(s, a[1], 8, 64, m)) return DEAD; Step q = condWait(s, concretize(s, a[0], 64), concretize(s, m, 64), false, 0, r); r.clear(); return q; }
BI(b_condwait) { (void)in; return condWait(s, concretize(s, a[0], 64), concretize(s, a[1], 64), false, 0, r); }
BI(b_condclockwait) { (void)in; Value sec, ns; u64 ts = a.size() == 4 ? a[3].v : a[2].v; if (!loadVal(s, VC(ts), 8, 64, sec) || !loadVal(s, VC(ts + 8), 8, 64, ns)) return DEAD; u64 dl = concretize(s, sec, 64) * 1000000000ull + concretize(s, ns, 64); return condWait(s, concretize(s, a[0], 64), concretize(s, a[1], 64), true, dl, r); }
static Step notify(State &s, u64 cond, bool all, const Inst &in) {
  vector<int> w; for (int i = 0; i < (int)s.th.size(); i++) if (s.th[i].st == TCond && s.th[i].wait == cond && !s.th[i].notified) w.push_back(i);
  if (all) { for (int i : w) s.th[i].notified = true; return NEXT; }
  if (w.size() > 1) { E c = mkVar("wake_" + to_string(s.sched.size()) + "_" + to_string(s.steps), 8, false); for (size_t k = 1; k < w.size(); k++) { State *o = cloneState(s); addConstraint(o->pc, mkEq(c, mkC(w[k], 8))); o->pc.model.set((int)c->k, w[k]); o->th[w[k]].notified = true; o->sched.push_back((u8)(100 + w[k])); Frame *f = top(*o); setRet(f, in, {VC(0)}); advance(f, in); g_work.push_back(o); } addConstraint(s.pc, mkEq(c, mkC(w[0], 8))); s.pc.model.set((int)c->k, w[0]); s.sched.push_back((u8)(100 + w[0])); }
  if (!w.empty()) s.th[w[0]].notified = true; return NEXT; }
BI(b_cvone) { Step st; if (!syncPoint(s, st)) return st; Step q = notify(s, concretize(s, a[0], 64), false, in); r = {VC(0)}; return q; }
BI(b_cvall) { Step st; if (!syncPoint(s, st)) return st; Step q = notify(s, concretize(s, a[0], 64), true, in); r = {VC(0)}; return q; }
// futex style wait: (addr, expected) blocks while *addr == expected until notified
BI(b_fwait) { (void)in; Thread &t = s.th[s.cur]; Step st; u64 p = concretize(s, a[0], 64); bool timed = a.size() > 2 && a[2].v;
  if (t.st == TWaitAddr) { t.chosen = false; t.st = TRun; bool to = !t.notified; t.notified = false; if (to && a.size() > 3 && a[3].v > s.clock) s.clock = a[3].v; r = {VC(to ? 0 : 1)}; return NEXT; }
  if (!syncPoint(s, st)) return st; Value v; if (!loadVal(s, VC(p), 4, 32, v)) return DEAD; if (concretize(s, v, 32) != (concretize(s, a[1], 32) & 0xffffffff)) { r = {VC(1)}; return NEXT; }
  Thread &u = s.th[s.cur]; u.st = TWaitAddr; u.wait = p; u.timed = timed; u.deadline = a.size() > 3 ? a[3].v : 0; u.notified = false; return schedule(s, true); }
BI(b_fwake) { (void)in; (void)r; Step st; if (!syncPoint(s, st)) return st; u64 p = concretize(s, a[0], 64); for (auto &t : s.th) if (t.st == TWaitAddr && t.wait == p) t.notified = true; return NEXT; }
BI(b_hb) { (void)in; (void)r; if (a[1].v & 1) hbRelease(s, a[0].v); else hbAcquire(s, a[0].v); return NEXT; }
BI(b_clock) { (void)in; (void)a; r = {VC(s.clock)}; return NEXT; }

static void reg(const char *n, Builtin b) { g_builtinIdx[n] = (int)g_builtins.size(); g_builtins.push_back(b); }
static void registerBuiltins() {
  for (auto n : {"memcpy", "memmove", "llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline", "__memcpy_chk", "__memmove_chk"}) reg(n, b_memcpy);
  for (auto n : {"memset", "llvm.memset", "llvm.memset.inline"}) reg(n, b_memset);
  reg("memcmp", b_memcmp); reg("bcmp", b_bcmp); reg("memchr", b_memchr); reg("strlen", b_strlen); reg("strcmp", b_strcmp);
  reg("malloc", b_malloc); reg("calloc", b_calloc); reg("realloc", b_realloc); reg("free", b_free);
  for (auto n : {"_Znwm", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t"}) reg(n, b_new); for (auto n : {"_Znam", "_ZnamRKSt9nothrow_t"}) reg(n, b_newarr);
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) reg(n, b_delete); for (auto n : {"_ZdaPv", "_ZdaPvm"}) reg(n, b_deletearr);
  reg("fs_u8", b_fresh<8>); reg("fs_u16", b_fresh<16>); reg("fs_u32", b_fresh<32>); reg("fs_u64", b_fresh<64>); reg("fs_bool", b_fresh<1>);
  reg("fs_bytes", b_fsbytes); reg("fs_choose", b_fschoose); reg("fs_assume", b_fsassume); reg("fs_assert", b_fsassert); reg("fs_reach", b_fsreach); reg("fs_observe", b_fsobserve); reg("fs_concretize", b_fsconc); reg("fs_param", b_fsparam); reg("fs_print", b_fsprint); reg("fs_symbolic", b_fssym); reg("fs_end", b_fsend); reg("fs_live_heap", b_fslive); reg("fs_incomplete", b_fsincomplete); reg("fs_clock_advance", b_fsclock); reg("fs_kv_set", b_fskvset); reg("fs_kv_get", b_fskvget); reg("fs_ite", b_fsite);
  reg("abort", b_abort); reg("_ZSt9terminatev", b_terminate); reg("exit", b_exit); reg("_exit", b_exit); reg("llvm.trap", b_trap); reg("llvm.ubsantrap", b_trap); reg("llvm.debugtrap", b_trap); reg("__assert_fail", b_abort); reg("_ZSt21__glibcxx_assert_failPKciS0_S0_", b_glibcxx_assert); reg("__cxa_pure_virtual", b_purevirtual); reg("__stack_chk_fail", b_abort);
  reg("__cxa_allocate_exception", b_cxa_alloc); reg("__cxa_free_exception", b_cxa_free); reg("__cxa_throw", b_cxa_throw); reg("__cxa_begin_catch", b_cxa_begin); reg("__cxa_end_catch", b_cxa_end); reg("__cxa_rethrow", b_cxa_rethrow); reg("__cxa_get_exception_ptr", b_id); reg("llvm.eh.typeid.for", b_typeid_for); reg("__dynamic_cast", b_dyncast);
  reg("_ZSt17current_exceptionv", b_cur_exc); reg("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", b_rethrow_exc); reg("__cxa_init_primary_exception", b_init_primary); reg("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", b_nop); reg("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", b_nop); reg("_ZNSt15__exception_ptr13exception_ptrC1EPv", b_nop);
  reg("_ZSt18uncaught_exceptionv", b_zero); reg("_ZSt19uncaught_exceptionsv", b_zero);
  reg("__cxa_atexit", b_zero); reg("__cxa_thread_atexit", b_zero); reg("atexit", b_zero); reg("__cxa_guard_acquire", b_guard_acq); reg("__cxa_guard_release", b_guard_rel); reg("__cxa_guard_abort", b_nop);
  reg("llvm.umin", b_minmax<0>); reg("llvm.umax", b_minmax<1>); reg("llvm.smin", b_minmax<2>); reg("llvm.smax", b_minmax<3>); reg("llvm.abs", b_abs); reg("llvm.bswap", b_bswap); reg("llvm.bitreverse", b_bitreverse); reg("llvm.ctpop", b_ctpop); reg("llvm.ctlz", b_ctlz); reg("llvm.cttz", b_cttz); reg("llvm.fshl", b_fsh<0>); reg("llvm.fshr", b_fsh<1>);
  reg("llvm.uadd.with.overflow", b_ovf<0>); reg("llvm.sadd.with.overflow", b_ovf<1>); reg("llvm.usub.with.overflow", b_ovf<2>); reg("llvm.ssub.with.overflow", b_ovf<3>); reg("llvm.umul.with.overflow", b_ovf<4>); reg("llvm.smul.with.overflow", b_ovf<5>); reg("llvm.usub.sat", b_sat<0>); reg("llvm.uadd.sat", b_sat<1>);
  reg("llvm.is.constant", b_isconst); reg("llvm.objectsize", b_objsize); reg("llvm.expect", b_id); reg("llvm.launder.invariant.group", b_id); reg("llvm.strip.invariant.group", b_id); reg("llvm.ptr.annotation", b_id); reg("llvm.load.relative", b_loadrel); reg("llvm.threadlocal.address", b_tls); reg("llvm.allow.ubsan.check", b_zero);
  reg("llvm.fabs", b_fabs); reg("llvm.floor", b_fmath<0>); reg("llvm.ceil", b_fmath<1>); reg("llvm.trunc", b_fmath<2>); reg("llvm.sqrt", b_fmath<3>); reg("fmod", b_fmath<4>); reg("fmodl", b_fmath<4>); reg("llvm.copysign", b_fmath<5>); reg("llvm.rint", b_fmath<6>); reg("llvm.round", b_fmath<7>); reg("llvm.fmuladd", b_fma); reg("llvm.is.fpclass", b_isfpclass); reg("ceil", b_fmath<1>); reg("floor", b_fmath<0>);
  reg("fs_strtofp", b_strtofp); reg("fs_fmtld", b_fmtld);
  reg("fs_thread_create", b_thcreate); reg("fs_thread_join", b_thjoin); reg("pthread_self", b_self); reg("sched_yield", b_yield); reg("fs_yield", b_yield);
  reg("pthread_mutex_lock", b_mlock); reg("pthread_mutex_unlock", b_munlock); reg("pthread_mutex_trylock", b_mtry); reg("pthread_mutex_init", b_zero); reg("pthread_mutex_destroy", b_zero); reg("pthread_cond_wait", b_condwait); reg("pthread_cond_clockwait", b_condclockwait); reg("pthread_cond_timedwait", b_condclockwait); reg("pthread_cond_signal", b_cvone); reg("pthread_cond_broadcast", b_cvall); reg("pthread_cond_init", b_zero); reg("pthread_cond_destroy", b_zero);
  reg("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", b_cvwait); reg("_ZNSt18condition_variable10notify_oneEv", b_cvone); reg("_ZNSt18condition_variable10notify_allEv", b_cvall); reg("_ZNSt18condition_variableC1Ev", b_nop); reg("_ZNSt18condition_variableD1Ev", b_nop);
  reg("fs_hb", b_hb); reg("fs_futex_wait", b_fwait); reg("fs_futex_wake", b_fwake); reg("_ZNSt6chrono3_V212steady_clock3nowEv", b_clock); reg("_ZNSt6chrono3_V212system_clock3nowEv", b_clock);
}
