// Instruction execution.
static inline Value getv(Frame *f, int i) { return i < 0 ? g_consts[-i - 1] : f->regs[i]; }
static inline Frame *top(State &s) { return s.th[s.cur].fr.back().mut(); }
enum Step { NEXT, AGAIN, DEAD };   // AGAIN: pc already set (or instruction is to be re-executed)

static string inputsJson(State &s, const Model &m) {
  string r = "{";
  for (size_t i = 0; i < s.in.size(); i++) { auto &x = s.in[i]; u64 v = x.e ? (u64)evalE(x.e, m) : x.val; if (i) r += ","; r += "\"" + jesc(x.name) + "\":" + to_string(v); }
  return r + "}";
}
static string schedJson(State &s) { string r = "["; for (size_t i = 0; i < s.sched.size(); i++) { if (i) r += ","; r += to_string((int)s.sched[i]); } return r + "]"; }
static void incomplete(State &s, const string &why) { (void)s; g_st.incomplete++; g_incomplete[why]++; }
static bool modelUsesUninit(State &s) { for (E c : s.pc.cs) for (int v : *support(c)) if (g_vars[v].uninit) return true; return false; }
static void report(State &s, const string &kind, const string &msg, const Model &m) {
  Frame *f = s.th[s.cur].fr.empty() ? nullptr : s.th[s.cur].fr.back().p;
  string loc = f && f->pc < f->fn->code.size() ? locOf(&f->fn->code[f->pc]) : "?";
  string key = kind + "|" + msg + "|" + loc + "|" + (f ? f->fn->name : "");
  if (g_violKeys.count(key)) return; g_violKeys.insert(key);
  int n = g_sh->viol.fetch_add(1); if (n >= g_maxViol) { g_sh->stop = 1; return; }
  string fn = g_out + "/viol." + to_string(getpid()) + "." + to_string(g_violKeys.size()) + ".json";
  if (FILE *o = fopen(fn.c_str(), "w")) {
    fprintf(o, "{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"stack\":\"%s\",\"uninit\":%s,\"inputs\":%s,\"sched\":%s}\n", jesc(kind).c_str(), jesc(msg).c_str(), jesc(loc).c_str(), jesc(stackOf(s)).c_str(), modelUsesUninit(s) ? "true" : "false", inputsJson(s, m).c_str(), schedJson(s).c_str());
    fclose(o);
  }
  if (n + 1 >= g_maxViol) g_sh->stop = 1;
}
static void reportHere(State &s, const string &kind, const string &msg) { report(s, kind, msg, s.pc.model); }

static State *cloneState(State &s) { State *n = new State(s); n->id = g_stateId++; n->forks++; s.forks++; g_st.forks++; return n; }
// Decide a boolean for the current state; the opposite outcome, if feasible, becomes a new state that re-executes this instruction.
static bool forkOn(State &s, E c) {
  if (isC(c)) return c->k;
  if (s.forcedE == c) { s.forcedE = nullptr; return s.forcedV; }
  bool b = evalE(c, s.pc.model) & 1;
  E pos = b ? c : mkNot(c), neg = b ? mkNot(c) : c;
  for (E x : s.pc.known) if (x == pos) return b;
  Model m; int r = feasible(s.pc, neg, m);
  if (r == -1) { incomplete(s, "solver gave up on a branch"); addConstraint(s.pc, pos); return b; }
  if (r == 0) return b;
  State *o = cloneState(s); addConstraint(o->pc, neg); o->pc.model = m; o->forcedE = c; o->forcedV = !b; g_work.push_back(o);
  addConstraint(s.pc, pos);
  return b;
}
// Make a value concrete, enumerating every feasible value over forked states.
static u64 concretize(State &s, Value v, unsigned w) {
  while (v.e) { u64 k = (u64)evalE(v.e, s.pc.model); if (forkOn(s, mkEq(v.e, mkC(k, w)))) return k; else { /* forced 'not equal' side: pick another value */ } }
  return v.v;
}

static bool memErr(State &s, const string &what, const Model &m) { report(s, "memory", what, m); return false; }
static string describe(Obj *o) { static const char *k[] = {"global", "heap", "stack"}; return string(k[o->kind]) + " object" + (o->name ? string(" '") + demangle(o->name) + "'" : "") + " of " + to_string(o->size) + " bytes"; }
static u64 constPart(E e) { if (isC(e)) return e->k; if (e->op == EAdd) { if (isC(e->b)) return e->b->k; } return 0; }
// Resolve an access. Returns false if the state dies. If symbolic, symOff is set.
static bool resolve(State &s, Value a, u64 n, bool wr, Obj *&o, u64 &off, E &symOff) {
  g_st.memChecks++; symOff = nullptr;
  if (!a.e) {
    u64 sl; Table *t; Entry *en = findEntry(s, a.v, sl, t); o = en ? en->o.p : nullptr;
    if (!o) { char b[64]; snprintf(b, 64, "0x%llx", (unsigned long long)a.v); return memErr(s, string(wr ? "write to " : "read from ") + (a.v < 4096 ? "null pointer " : en && en->freed ? "freed memory " : "invalid pointer ") + b, s.pc.model); }
    off = a.v - o->base;
    if (a.v < o->base || off > o->size || n > o->size - off) return memErr(s, string("out-of-bounds ") + (wr ? "write" : "read") + " of " + to_string(n) + " bytes at offset " + to_string((i64)off) + " of " + describe(o), s.pc.model);
    if (wr && o->ro) return memErr(s, "write to constant " + describe(o), s.pc.model);
    return true;
  }
  g_st.symAddr++;
  for (int iter = 0; iter < 64; iter++) {
    u64 kp = constPart(a.e); Obj *ob = kp ? findObj(s, kp) : nullptr; bool based = ob != nullptr;
    u64 va = (u64)evalE(a.e, s.pc.model); Obj *om = findObj(s, va);
    if (ob && om && om != ob && va >= om->base && va - om->base + n <= om->size) {
      // The constant part names another object than the address itself: trust it only if the access can reach that object at all.
      Model m0; E in0 = ob->size >= n ? mkUle(mkBin(ESub, a.e, mkC(ob->base, 64)), mkC(ob->size - n, 64)) : mkFalse();
      if (s.forcedE != in0 && feasible(s.pc, in0, m0) != 1) { ob = om; based = false; }
    }
    if (!ob) ob = om;
    if (!ob) return memErr(s, string(wr ? "write through" : "read through") + " an invalid pointer (symbolic)", s.pc.model);
    E offE = mkBin(ESub, a.e, mkC(ob->base, 64));
    E inb = ob->size >= n ? mkUle(offE, mkC(ob->size - n, 64)) : mkFalse();
    if (!isC(inb) || !inb->k) {
      Model m; int r;
      if (s.forcedE == inb) { bool v = s.forcedV; s.forcedE = nullptr; if (!v) { // pointer is in another object: pick from the model
            u64 v2 = (u64)evalE(a.e, s.pc.model); Obj *o2 = findObj(s, v2); if (!o2) return memErr(s, "invalid pointer (symbolic)", s.pc.model);
            if (forkOn(s, mkEq(a.e, mkC(v2, 64)))) { return resolve(s, VC(v2), n, wr, o, off, symOff); } continue; } r = 0; }
      else r = feasible(s.pc, mkNot(inb), m);
      if (r == -1) incomplete(s, "solver gave up on a bounds check");
      if (r == 1) {
        u64 v2 = (u64)evalE(a.e, m); Obj *o2 = findObj(s, v2);
        bool other = !based && o2 && o2 != ob && v2 >= o2->base && v2 - o2->base + n <= o2->size;
        if (!other) {
          memErr(s, string("out-of-bounds ") + (wr ? "write" : "read") + " of " + to_string(n) + " bytes at offset " + to_string((i64)(v2 - ob->base)) + " of " + describe(ob), m);
          // continue on the in-bounds side if there is one
          Model m2; if (feasible(s.pc, inb, m2) != 1) return false; addConstraint(s.pc, inb); s.pc.model = m2;
        } else { if (!forkOn(s, inb)) continue; }
      }
    }
    if (wr && ob->ro) return memErr(s, "write to constant " + describe(ob), s.pc.model);
    o = ob; off = 0; symOff = offE; if (isC(offE)) { off = offE->k; symOff = nullptr; }
    return true;
  }
  incomplete(s, "pointer resolution"); return false;
}
// possible values of an in-bounds offset expression; false if too many
static bool candidates(State &s, E off, u64 maxOff, vector<u64> &out, size_t limit) {
  if (fdable(off)) if (const u64 *t = vtab(off)) {
    Dom *d = s.pc.domOf(off->var1); set<u64> r; unsigned lim = 1u << g_vars[off->var1].w;
    for (unsigned i = 0; i < lim; i++) if ((!d || d->test(i)) && t[i] <= maxOff) r.insert(t[i]);
    out.assign(r.begin(), r.end()); return out.size() <= limit;
  }
  unsigned lz = lowZeros(off); E x = off; u64 base = 0;
  if (off->op == EAdd && isC(off->b)) { base = off->b->k; lz = lowZeros(off->a); x = off->a; }
  u64 st = 1ull << min(lz, 12u); u64 start = base & (st - 1); (void)x;
  u64 hi = maxOff; u128 mv = maxVal(off, 0); if (mv < hi) hi = (u64)mv;
  u64 lo = start;
  if (base && (i64)base > 0 && (maxVal(x, 0) + base) < ((u128)1 << 63)) lo = base;
  if (hi < lo) { return false; }
  if ((hi - lo) / st + 1 > limit) {
    // tighten using the solver: smallest and largest feasible
    return false;
  }
  for (u64 v = lo; v <= hi; v += st) out.push_back(v);
  return true;
}
static E muxRead(State &s, Obj *&o, E off, const vector<u64> &c, size_t l, size_t r, unsigned bytes, unsigned w) {
  if (r - l == 1) { Value v = readVal(s, o, c[l], bytes, w); o = findObj(s, o->base); return toE(v, w); }
  size_t m = (l + r) / 2; E a = muxRead(s, o, off, c, l, m, bytes, w), b = muxRead(s, o, off, c, m, r, bytes, w);
  if (a == b) return a;
  return mkIte(mkUlt(off, mkC(c[m], 64)), a, b);
}
static bool loadVal(State &s, Value a, unsigned bytes, unsigned w, Value &res) {
  Obj *o; u64 off; E so;
  if (!resolve(s, a, bytes, false, o, off, so)) return false;
  if (so) {
    vector<u64> c;
    if (candidates(s, so, o->size - bytes, c, 1024) && !c.empty()) { res = w > 64 ? Value{0, muxRead(s, o, so, c, 0, c.size(), bytes, w)} : VE(muxRead(s, o, so, c, 0, c.size(), bytes, w)); return true; }
    off = concretize(s, {0, so}, 64);
  }
  res = readVal(s, o, off, bytes, w); return true;
}
static bool storeVal(State &s, Value a, unsigned bytes, unsigned w, Value v) {
  Obj *o; u64 off; E so;
  if (!resolve(s, a, bytes, true, o, off, so)) return false;
  if (so) {
    vector<u64> c;
    if (candidates(s, so, o->size - bytes, c, 300) && !c.empty()) {
      E e = toE(v, w); if (w < bytes * 8) e = mkZExt(e, bytes * 8);
      u64 base = o->base;
      for (u64 k : c) { E cond = mkEq(so, mkC(k, 64)); for (unsigned i = 0; i < bytes; i++) { Obj *r = findObj(s, base); E old = readByteE(s, r, k + i); Obj *wo = writable(s, base); writeByteE(wo, k + i, mkIte(cond, mkExtract(e, i * 8, 8), old)); } }
      return true;
    }
    off = concretize(s, {0, so}, 64);
  }
  Obj *wo = writable(s, o->base); writeVal(wo, off, bytes, w, v); return true;
}
static void takeEdge(Frame *f, Edge *e) {
  if (e->moves.size() == 1) { f->regs[e->moves[0].first] = getv(f, e->moves[0].second); }
  else if (!e->moves.empty()) { static vector<Value> tmp; tmp.clear(); for (auto &m : e->moves) tmp.push_back(getv(f, m.second)); for (size_t i = 0; i < tmp.size(); i++) f->regs[e->moves[i].first] = tmp[i]; }
  f->pc = e->to;
}
static set<string> g_entered;
static void pushFrame(State &s, Fn *fn, const vector<Value> &args, const Inst *site) {
  decode(fn); if (!fn->entered) { fn->entered = true; }
  Frame *f = new Frame(); f->fn = fn; f->regs.assign(fn->nregs, Value{0, nullptr});
  s.th[s.cur].fr.push_back(Ref<Frame>(f));
  for (size_t i = 0; i < fn->argRegs.size() && i < args.size(); i++) f->regs[fn->argRegs[i]] = args[i];
  if (site) for (auto &bv : site->byval) { // caller-made copy
      Obj *src; u64 off; E so; if (!resolve(s, args[bv.first], bv.second, false, src, off, so) || so) die("byval copy");
      u64 base = src->base; u64 nb = allocStack(s, bv.second, 16, "byval"); Obj *d = writable(s, nb);
      for (u64 i = 0; i < bv.second; i++) { Obj *sr = findObj(s, base); Page *p = sr->pages[(off + i) / PAGE].p; if ((p && p->isInit((off + i) % PAGE)) || sr->zero) writeByteE(d, i, readByteE(s, sr, off + i)); }
      s.th[s.cur].fr.back().mut()->regs[fn->argRegs[bv.first]] = VC(nb); }
}
static void popFrame(State &s) { auto &fr = s.th[s.cur].fr; for (u64 b : fr.back()->stackObjs) freeObj(s, b);
  if (!fr.back()->stackObjs.empty()) { Thread &t = s.th[s.cur]; u64 lo = (fr.back()->stackObjs[0] - SBASE) % TSTACK / SLOT; if (lo < t.stackNext) t.stackNext = lo; }
  fr.pop_back(); }
static void advance(Frame *f, const Inst &in) { if (in.e1) takeEdge(f, in.e1); else f->pc++; }
static void setRet(Frame *f, const Inst &in, const vector<Value> &rv) { if (in.dst >= 0) for (size_t i = 0; i < rv.size() && i < in.retw.size(); i++) f->regs[in.dst + i] = rv[i]; }

// ---------------------------------------------------------------- exceptions
static L::GlobalVariable *globalAt(u64 a) { auto it = g_gByAddr.find(a); return it == g_gByAddr.end() ? nullptr : it->second; }
static bool isSubtype(u64 thrown, u64 target, u64 &adj) {
  if (thrown == target) return true;
  auto *g = globalAt(thrown), *tg = globalAt(target);
  if (g && tg && g->getName() == tg->getName()) return true;
  if (!g || !g->hasInitializer()) return false;
  auto *cs = L::dyn_cast<L::ConstantStruct>(g->getInitializer()); if (!cs || cs->getNumOperands() < 3) return false;
  auto addr = [&](L::Constant *c) { vector<Value> v; evalConst(c, v); return v[0].v; };
  string vt; { L::Constant *c = cs->getOperand(0); if (auto *ce = L::dyn_cast<L::ConstantExpr>(c)) c = ce->getOperand(0); vt = c->getName().str(); }
  if (vt.find("si_class") != string::npos) return isSubtype(addr(cs->getOperand(2)), target, adj);
  if (vt.find("vmi_class") != string::npos) {
    for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) { u64 a = 0; if (isSubtype(addr(cs->getOperand(i)), target, a)) { vector<Value> fl; evalConst(cs->getOperand(i + 1), fl); if (fl[0].v & 1) return false; adj += a + (u64)((i64)fl[0].v >> 8); return true; } }
  }
  if (vt.find("__pointer_type_info") != string::npos) return false;
  return false;
}
static int g_nextSel = 1; static map<u64, int> g_sel;
static int selOf(u64 ti) { auto it = g_sel.find(ti); if (it != g_sel.end()) return it->second; return g_sel[ti] = g_nextSel++; }
static L::LandingPadInst *lpadOf(const Inst &in) { auto *inv = L::cast<L::InvokeInst>(in.I); return inv->getUnwindDest()->getLandingPadInst(); }
// selector for a landing pad: >0 catch, 0 cleanup only, -1 nothing
static int lpadSelect(L::LandingPadInst *lp, u64 thrown) {
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    auto *cl = lp->getClause(i);
    if (lp->isCatch(i)) { if (L::isa<L::ConstantPointerNull>(cl)) return selOf(0); vector<Value> v; evalConst(cl, v); u64 adj = 0; if (thrown && isSubtype(thrown, v[0].v, adj)) return selOf(v[0].v); }
    else { auto *arr = cl; unsigned n = L::cast<L::ArrayType>(arr->getType())->getNumElements(); bool match = false; if (n) { vector<Value> v; evalConst(arr, v); for (auto &x : v) { u64 adj = 0; if (isSubtype(thrown, x.v, adj)) match = true; } } if (!match) return -2; }
  }
  return lp->isCleanup() ? 0 : -1;
}
static string typeName(u64 ti) { auto *g = globalAt(ti); if (!g) return "?"; string n = g->getName().str(); if (n.rfind("_ZTI", 0) == 0) return demangle("_Z" + n.substr(4)) == "_Z" + n.substr(4) ? demangle(n) : demangle(n); return n; }
static Step unwind(State &s, u64 exc) {
  Thread &t = s.th[s.cur]; u64 ti = s.exc[exc].tinfo; bool found = false;
  for (int i = (int)t.fr.size() - 1; i >= 0 && !found; i--) { const Inst &in = t.fr[i]->fn->code[t.fr[i]->pc]; if (in.op == I_CALL && in.e2) { int r = lpadSelect(lpadOf(in), ti); if (r > 0 || r == -2) found = true; } }
  if (!found) { reportHere(s, "uncaught", "uncaught exception of type " + typeName(ti)); return DEAD; }
  while (!t.fr.empty()) {
    Frame *f = t.fr.back().mut(); const Inst &in = f->fn->code[f->pc];
    if (in.op == I_CALL && in.e2) { int r = lpadSelect(lpadOf(in), ti); if (r == -2) { reportHere(s, "uncaught", "exception specification violated"); return DEAD; } if (r >= 0) { takeEdge(f, in.e2); const Inst &lp = f->fn->code[f->pc]; f->regs[lp.dst] = VC(exc); f->regs[lp.dst + 1] = VC((u64)r); f->pc++; return AGAIN; } }
    popFrame(s);
  }
  return DEAD;
}

// ---------------------------------------------------------------- threads
static bool g_schedLog = false;
static void logSched(State &x, int to) { if (!g_schedLog) return; Frame *f = x.th[x.cur].fr.empty() ? nullptr : x.th[x.cur].fr.back().p; x.slog.push_back(to_string(x.cur) + ">" + to_string(to) + " " + (f ? [&] { string l = locOf(&f->fn->code[f->pc]); l = l.substr(0, l.find(" <")); auto q = l.rfind('/'); return f->fn->name.substr(0, 50) + " " + (q == string::npos ? l : l.substr(q + 1)); }() : string("end"))); }
static bool g_refPreempt = false; // may a thread be preempted at reference count updates?
// Happens-before tracking: vector clocks per thread and synchronisation object, last accesses per byte of heap and globals.
static void vcJoin(vector<u16> &a, const vector<u16> &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
static vector<u16> &vcOf(State &s, int t) { auto &v = s.th[t].vc; if ((int)v.size() <= t) { v.resize(t + 1, 0); if (!v[t]) v[t] = 1; } return v; }
static void hbAcquire(State &s, u64 k) { if (s.th.size() < 2) return; auto it = s.hb.find(k); if (it != s.hb.end()) vcJoin(vcOf(s, s.cur), it->second); }
static void hbRelease(State &s, u64 k) { if (s.th.size() < 2) return; auto &v = vcOf(s, s.cur); vcJoin(s.hb[k], v); v[s.cur]++; }
static bool raceAccess(State &s, u64 addr, u64 n, bool wr, const char *what) {
  if (s.th.size() < 2 || !n) return true;
  Obj *o = findObj(s, addr); if (!o || o->kind == OStack || o->ro) return true;
  u64 off = addr - o->base; if (off >= o->size) return true; n = min(n, o->size - off);
  auto &v = vcOf(s, s.cur); u16 me = v[s.cur]; Obj *w = writable(s, o->base);
  for (u64 i = off; i < off + n; i++) {
    Page *p = pageMut(w, i / PAGE); if (!p->ep) p->ep = new Epoch[PAGE]; Epoch &e = p->ep[i % PAGE];
    if (e.wc && e.wt != s.cur && (e.wt >= v.size() || e.wc > v[e.wt])) { reportHere(s, "race", string("data race: ") + what + " at offset " + to_string(i) + " of " + describe(w) + " is not ordered after a write by another thread"); return false; }
    if (wr && e.rc && e.rt != s.cur && (e.rt >= v.size() || e.rc > v[e.rt])) { reportHere(s, "race", string("data race: ") + what + " at offset " + to_string(i) + " of " + describe(w) + " is not ordered after a read by another thread"); return false; }
    if (wr) { e.wt = (u8)s.cur; e.wc = me; } else { e.rt = (u8)s.cur; e.rc = me; }
  }
  return true;
}
static void atomicHB(State &s, const Inst &in, Value a, bool rd, bool wr) { if (s.th.size() < 2 || in.nosync || a.e) return; if (rd) hbAcquire(s, a.v); if (wr) hbRelease(s, a.v); }
static bool freeMutex(State &s, u64 m) { auto it = s.mtx.find(m); return it == s.mtx.end() || it->second.owner < 0; }
// Can the thread go on by itself?
static bool runnable(State &s, int i) {
  Thread &t = s.th[i];
  switch (t.st) {
    case TRun: return true; case TDone: return false;
    case TMutex: return freeMutex(s, t.wait);
    case TCond: return t.notified && freeMutex(s, t.mutex);
    case TJoin: return t.wait < s.th.size() && s.th[t.wait].st == TDone;
    case TWaitAddr: return t.notified;
  }
  return false;
}
// Can it go on by giving up a timed wait?
static bool canTimeOut(State &s, int i) { Thread &t = s.th[i]; if (!t.timed || t.notified) return false; return t.st == TWaitAddr || (t.st == TCond && freeMutex(s, t.mutex)); }
// Choose which thread runs next. 'mustSwitch': the current thread cannot go on.
// A timed wait ends in time order when no thread can run otherwise; up to g_maxTimeouts times it ends although others could run first.
static Step schedule(State &s, bool mustSwitch) {
  vector<int> opt; bool curOk = !mustSwitch && runnable(s, s.cur); int n = (int)s.th.size(), forced = -1;
  if (curOk) opt.push_back(s.cur);
  if (mustSwitch || s.preempt < g_maxPreempt) {
    for (int k = 1; k <= n; k++) { int i = (s.cur + k) % n; if (i != s.cur && runnable(s, i)) opt.push_back(i); }
    if (mustSwitch && runnable(s, s.cur)) opt.push_back(s.cur);
  }
  if (opt.empty()) { for (int k = 1; k <= n; k++) { int i = (s.cur + k) % n; if (canTimeOut(s, i) && (forced < 0 || s.th[i].deadline < s.th[forced].deadline)) forced = i; } if (forced >= 0) { if (++s.forced > g_maxForced) { if (s.th[0].st != TDone && s.th[0].st != TRun && !s.th[0].timed) reportHere(s, "deadlock", "the main thread still waits after " + to_string(g_maxForced) + " timed waits of other threads ran out"); else incomplete(s, "bound on timed wake-ups reached"); return DEAD; } opt.push_back(forced); } }
  if (opt.empty()) { reportHere(s, "deadlock", "every thread is blocked"); return DEAD; }
  if ((mustSwitch || s.preempt < g_maxPreempt) && s.timeouts < g_maxTimeouts) for (int k = 1; k <= n; k++) { int i = (s.cur + k) % n; if (i != forced && canTimeOut(s, i)) opt.push_back(i); }
  auto apply = [&](State &x, int i) { logSched(x, i); if (i != x.cur && curOk) x.preempt++; if (i != x.cur) g_st.threadSwitch++; if (i != forced && canTimeOut(x, i)) x.timeouts++; x.cur = i; x.th[i].chosen = true; x.sched.push_back((u8)i); };
  if (opt.size() > 1) {
    E c = mkVar("sched_" + to_string(s.sched.size()), 8, false);
    for (size_t k = 1; k < opt.size(); k++) { State *o = cloneState(s); addConstraint(o->pc, mkEq(c, mkC(opt[k], 8))); o->pc.model.set((int)c->k, opt[k]); apply(*o, opt[k]); g_work.push_back(o); }
    addConstraint(s.pc, mkEq(c, mkC(opt[0], 8))); s.pc.model.set((int)c->k, opt[0]);
  }
  apply(s, opt[0]); return AGAIN;
}
// Scheduling point before a synchronisation operation. Returns true if the operation may execute now.
static bool syncPoint(State &s, Step &r) {
  Thread &t = s.th[s.cur]; if (t.chosen) { t.chosen = false; return true; }
  int alive = 0; for (auto &x : s.th) if (x.st != TDone) alive++;
  if (alive <= 1) return true;
  r = schedule(s, false); return false;
}
static Step threadEnd(State &s) {
  s.th[s.cur].st = TDone;
  if (s.cur == 0) { s.mainDone = true; return DEAD; }
  return schedule(s, true);
}

typedef function<Step(State &, const Inst &, vector<Value> &, vector<Value> &)> Builtin;
static vector<Builtin> g_builtins; static unordered_map<string, int> g_builtinIdx;
static int builtinIndex(const string &n) { auto it = g_builtinIdx.find(n); return it == g_builtinIdx.end() ? -1 : it->second; }
static void endPath(State &s);
static bool g_shiftStrict = false;

static Step execCall(State &s, const Inst &in) {
  Frame *f = top(s); Fn *callee = in.callee; int bi = in.builtin;
  if (in.sub == 1) {
    Value fv = getv(f, in.a); u64 a = concretize(s, fv, 64);
    if (a < FBASE || a >= FBASE + REGION || (a & 15) || (a - FBASE) / 16 == 0 || (a - FBASE) / 16 > g_fnByIdx.size()) { char b[80]; snprintf(b, 80, "call through invalid function pointer 0x%llx", (unsigned long long)a); reportHere(s, "memory", b); return DEAD; }
    callee = g_fnByIdx[(a - FBASE) / 16 - 1];
  }
  f = top(s);
  if (callee && bi < 0) bi = callee->builtin;
  vector<Value> args; args.reserve(in.args.size()); for (int a : in.args) args.push_back(getv(f, a));
  if (bi >= 0) {
    vector<Value> rv; Step r = g_builtins[bi](s, in, args, rv);
    if (r == NEXT) { f = top(s); setRet(f, in, rv); advance(f, in); return AGAIN; }
    return r;
  }
  if (!callee || callee->F->isDeclaration()) { incomplete(s, "unmodelled function " + (callee ? demangle(callee->name) : string("?"))); return DEAD; }
  if (s.th[s.cur].fr.size() > 4000) { reportHere(s, "stack", "call depth exceeds 4000 frames"); return DEAD; }
  pushFrame(s, callee, args, &in); return AGAIN;
}
static E icmpE(unsigned p, E a, E b) {
  using P = L::CmpInst::Predicate;
  switch ((P)p) {
    case P::ICMP_EQ: return mkEq(a, b); case P::ICMP_NE: return mkNot(mkEq(a, b)); case P::ICMP_ULT: return mkUlt(a, b); case P::ICMP_ULE: return mkUle(a, b); case P::ICMP_UGT: return mkUlt(b, a); case P::ICMP_UGE: return mkUle(b, a);
    case P::ICMP_SLT: return mkSlt(a, b); case P::ICMP_SLE: return mkNot(mkSlt(b, a)); case P::ICMP_SGT: return mkSlt(b, a); default: return mkNot(mkSlt(a, b));
  }
}
static bool icmpC(unsigned p, u64 a, u64 b, unsigned w) {
  using P = L::CmpInst::Predicate; i64 x = sext64(a, w), y = sext64(b, w);
  switch ((P)p) { case P::ICMP_EQ: return a == b; case P::ICMP_NE: return a != b; case P::ICMP_ULT: return a < b; case P::ICMP_ULE: return a <= b; case P::ICMP_UGT: return a > b; case P::ICMP_UGE: return a >= b; case P::ICMP_SLT: return x < y; case P::ICMP_SLE: return x <= y; case P::ICMP_SGT: return x > y; default: return x >= y; }
}
static Value V(E e) { return e->w > 64 ? Value{0, e} : VE(e); }
static inline Value selectV(Value c, Value a, Value b, unsigned w) { if (!c.e) return (c.v & 1) ? a : b; if (!a.e && !b.e && a.v == b.v && w <= 64) return a; return V(mkIte(c.e, toE(a, w), toE(b, w))); }

// Execute one instruction.
static Step exec1(State &s) {
  Thread &t = s.th[s.cur];
  if (t.fr.empty()) return threadEnd(s);
  Frame *f = t.fr.back().p; if (f->rc > 1) f = t.fr.back().mut();
  const Inst &in = f->fn->code[f->pc];
  s.steps++; g_st.instrs++;
  if (in.atomic && s.th.size() > 1) {
    if (in.atomic == 2 && !g_refPreempt && !t.chosen) { int alive = 0; for (auto &x : s.th) if (x.st != TDone) alive++; if (alive > 1) { logSched(s, s.cur); s.sched.push_back((u8)s.cur); } }
    else { Step r; if (!syncPoint(s, r)) return r; f = top(s); } }
  switch (in.op) {
    case I_BIN: {
      Value a = getv(f, in.a), b = getv(f, in.b);
      if (!a.e && !b.e && in.w <= 64 && in.sub != EConcat) {
        u64 x = a.v, y = b.v, m = maskw(in.w), r;
        switch (in.sub) {
          case EAdd: r = x + y; break; case ESub: r = x - y; break; case EMul: r = x * y; break; case EAnd: r = x & y; break; case EOr: r = x | y; break; case EXor: r = x ^ y; break;
          case EShl: r = y >= in.w ? 0 : x << y; break; case ELShr: r = y >= in.w ? 0 : x >> y; break; case EAShr: r = y >= in.w ? (u64)(sext64(x, in.w) >> 63) : (u64)(sext64(x, in.w) >> y); break;
          case EUDiv: case EURem: case ESDiv: case ESRem: if (y == 0) { reportHere(s, "arith", "division by zero"); return DEAD; } r = (u64)foldOp(in.sub, 0, in.w, in.w, x, y, 0); break;
          default: r = 0; die("bin"); }
        f->regs[in.dst] = VC(r & m);
      } else if (in.sub == EConcat) f->regs[in.dst] = V(mkConcat(toE(a, in.w), toE(b, in.w2)));
      else {
        if (in.sub == EUDiv || in.sub == ESDiv || in.sub == EURem || in.sub == ESRem) {
          E z = mkEq(toE(b, in.w), mkC(0, in.w));
          if (!isC(z) || z->k) { Model m; if (feasible(s.pc, z, m) == 1) { report(s, "arith", "division by zero", m); Model m2; if (feasible(s.pc, mkNot(z), m2) != 1) return DEAD; addConstraint(s.pc, mkNot(z)); s.pc.model = m2; } }
        }
        f->regs[in.dst] = V(mkBin(in.sub, toE(a, in.w), toE(b, in.w)));
      }
      f->pc++; return AGAIN; }
    case I_ICMP: { Value a = getv(f, in.a), b = getv(f, in.b); if (!a.e && !b.e && in.w <= 64) f->regs[in.dst] = VC(icmpC(in.sub, a.v, b.v, in.w)); else f->regs[in.dst] = V(icmpE(in.sub, toE(a, in.w), toE(b, in.w))); f->pc++; return AGAIN; }
    case I_ZEXT: { Value a = getv(f, in.a); f->regs[in.dst] = !a.e && in.w2 <= 64 ? a : V(mkZExt(toE(a, in.w), in.w2)); f->pc++; return AGAIN; }
    case I_SEXT: { Value a = getv(f, in.a); f->regs[in.dst] = !a.e && in.w2 <= 64 ? VC((u64)sext64(a.v, in.w) & maskw(in.w2)) : V(mkSExt(toE(a, in.w), in.w2)); f->pc++; return AGAIN; }
    case I_TRUNC: { Value a = getv(f, in.a); f->regs[in.dst] = !a.e ? VC((a.v >> in.imm) & maskw(in.w2)) : V(mkExtract(a.e, (unsigned)in.imm, in.w2)); f->pc++; return AGAIN; }
    case I_MOV: f->regs[in.dst] = getv(f, in.a); f->pc++; return AGAIN;
    case I_SELECT: {
      Value c = getv(f, in.c);
      if (c.e && !c.e->hasFP && c.e->var1 != -1) { RngCtx rc{s.pc, {}, 400}; Rng r = rng(rc, c.e); if (r.lo == r.hi) { f->regs[in.dst] = getv(f, r.lo ? in.a : in.b); f->pc++; return AGAIN; } }
      f->regs[in.dst] = selectV(c, getv(f, in.a), getv(f, in.b), in.w); f->pc++; return AGAIN; }
    case I_GEP: {
      Value b = getv(f, in.a); bool conc = !b.e; u64 acc = (u64)in.imm; E se = nullptr;
      for (auto &g : in.gep) { Value x = getv(f, g.first); if (!x.e) acc += x.v * (u64)g.second; else { E m = mkBin(EMul, x.e, mkC((u64)g.second, 64)); se = se ? mkBin(EAdd, se, m) : m; conc = false; } }
      if (conc) f->regs[in.dst] = VC(b.v + acc);
      else { E e = b.e ? b.e : nullptr; if (!b.e) acc += b.v; if (se) e = e ? mkBin(EAdd, e, se) : se; f->regs[in.dst] = V(mkBin(EAdd, e, mkC(acc, 64))); }
      f->pc++; return AGAIN; }
    case I_LOAD: {
      Value a = getv(f, in.a); if (in.imm) { if (a.e) a = V(mkBin(EAdd, a.e, mkC((u64)in.imm, 64))); else a.v += (u64)in.imm; }
      Value r; if (!loadVal(s, a, in.w2, in.w, r)) return DEAD; if (s.th.size() > 1) { if (in.atomic) atomicHB(s, in, a, true, false); else if (!in.nosync && !a.e && !raceAccess(s, a.v, in.w2, false, "read")) return DEAD; }
      f = top(s); f->regs[in.dst] = r; f->pc++; return AGAIN; }
    case I_STORE: {
      Value a = getv(f, in.a); if (in.imm) { if (a.e) a = V(mkBin(EAdd, a.e, mkC((u64)in.imm, 64))); else a.v += (u64)in.imm; }
      if (in.sub) { Obj *o; u64 off; E so; if (!resolve(s, a, in.w2, true, o, off, so)) return DEAD; top(s)->pc++; return AGAIN; }
      if (!storeVal(s, a, in.w2, in.w, getv(f, in.b))) return DEAD; if (s.th.size() > 1) { if (in.atomic) atomicHB(s, in, a, false, true); else if (!in.nosync && !a.e && !raceAccess(s, a.v, in.w2, true, "write")) return DEAD; }
      top(s)->pc++; return AGAIN; }
    case I_BR: takeEdge(f, in.e1); return AGAIN;
    case I_CONDBR: { Value c = getv(f, in.a); bool b; if (!c.e) b = c.v & 1; else { b = forkOn(s, c.e); f = top(s); } takeEdge(f, b ? in.e1 : in.e2); return AGAIN; }
    case I_SWITCH: {
      Value v = getv(f, in.a); int tgt = in.sw->def;
      if (!v.e) { for (auto &c : in.sw->cases) if (c.first == v.v) { tgt = c.second; break; } }
      else {
        // group the cases per target; decide target by target
        u128 cur = evalE(v.e, s.pc.model); int want = in.sw->def; for (auto &c : in.sw->cases) if (c.first == cur) { want = c.second; break; }
        bool done = false; E wE = v.e;
        auto condOf = [&](int t) { E r = mkFalse(); if (t == in.sw->def) { E n = mkTrue(); for (auto &c : in.sw->cases) if (c.second != t) n = mkAnd(n, mkNot(mkEq(wE, mkC128(c.first, in.w)))); return n; } for (auto &c : in.sw->cases) if (c.second == t) r = mkOr(r, mkEq(wE, mkC128(c.first, in.w))); return r; };
        while (!done) { // current side: target under the model; others are forked and re-execute
          cur = evalE(v.e, s.pc.model); want = in.sw->def; for (auto &c : in.sw->cases) if (c.first == cur) { want = c.second; break; }
          if (forkOn(s, condOf(want))) { tgt = want; done = true; }
        }
      }
      takeEdge(top(s), in.edges[tgt]); return AGAIN; }
    case I_RET: {
      vector<Value> rv; for (int a : in.args) rv.push_back(getv(f, a));
      popFrame(s); Thread &tt = s.th[s.cur]; if (tt.fr.empty()) return threadEnd(s);
      Frame *c = tt.fr.back().mut(); const Inst &ci = c->fn->code[c->pc];
      if (c->fn && ci.op == I_CALL) { setRet(c, ci, rv); advance(c, ci); }
      return AGAIN; }
    case I_CALL: return execCall(s, in);
    case I_UNREACH: reportHere(s, "unreachable", "unreachable code executed (undefined behaviour or missing return)"); return DEAD;
    case I_LPAD: f->pc++; return AGAIN;
    case I_RESUME: { u64 exc = getv(f, in.a).v; popFrame(s); if (s.th[s.cur].fr.empty()) { reportHere(s, "uncaught", "exception left thread"); return DEAD; } return unwind(s, exc); }
    case I_ALLOCA: { u64 n = concretize(s, getv(f, in.a), 64); f = top(s); u64 b = allocStack(s, (u64)in.imm * n, (u64)in.b, "local"); top(s)->regs[in.dst] = VC(b); top(s)->pc++; return AGAIN; }
    case I_FBIN: { Value a = getv(f, in.a), b = getv(f, in.b); f->regs[in.dst] = V(mkFP(in.sub, in.w, toE(a, in.w), toE(b, in.w))); f->pc++; return AGAIN; }
    case I_FNEG: f->regs[in.dst] = V(mkFP(EFNeg, in.w, toE(getv(f, in.a), in.w), nullptr)); f->pc++; return AGAIN;
    case I_FCMP: { E a = toE(getv(f, in.a), in.w), b = toE(getv(f, in.b), in.w); if (isC(a) && isC(b)) f->regs[in.dst] = VC((u64)foldOp(EFCmp, in.sub, 1, in.w, cval(a), cval(b), 0)); else f->regs[in.dst] = V(raw(EFCmp, 1, a, b, nullptr, 0, in.sub)); f->pc++; return AGAIN; }
    case I_FCAST: f->regs[in.dst] = V(mkFP(in.sub, in.w2, toE(getv(f, in.a), in.w), nullptr)); f->pc++; return AGAIN;
    case I_RMW: {
      Value a = getv(f, in.a), b = getv(f, in.b), old; if (!loadVal(s, a, in.w2, in.w, old)) return DEAD; f = top(s);
      E x = toE(old, in.w), y = toE(b, in.w), r; using B = L::AtomicRMWInst;
      switch (in.sub) { case B::Xchg: r = y; break; case B::Add: r = mkBin(EAdd, x, y); break; case B::Sub: r = mkBin(ESub, x, y); break; case B::And: r = mkBin(EAnd, x, y); break; case B::Or: r = mkBin(EOr, x, y); break; case B::Xor: r = mkBin(EXor, x, y); break; case B::Max: r = mkIte(mkSlt(x, y), y, x); break; case B::Min: r = mkIte(mkSlt(x, y), x, y); break; case B::UMax: r = mkIte(mkUlt(x, y), y, x); break; case B::UMin: r = mkIte(mkUlt(x, y), x, y); break; default: incomplete(s, "atomicrmw"); return DEAD; }
      if (!storeVal(s, a, in.w2, in.w, V(r))) return DEAD; atomicHB(s, in, a, true, true); f = top(s); f->regs[in.dst] = old; f->pc++; return AGAIN; }
    case I_CMPXCHG: {
      Value a = getv(f, in.a), old; if (!loadVal(s, a, in.w2, in.w, old)) return DEAD; f = top(s);
      bool eq = forkOn(s, mkEq(toE(old, in.w), toE(getv(f, in.b), in.w))); f = top(s);
      if (eq) { if (!storeVal(s, a, in.w2, in.w, getv(f, in.c))) return DEAD; f = top(s); }
      atomicHB(s, in, a, true, eq); f = top(s); f->regs[in.dst] = old; f->regs[in.dst + 1] = VC(eq); f->pc++; return AGAIN; }
    case I_FENCE: f->pc++; return AGAIN;
    case I_UNSUP: { string str; L::raw_string_ostream os(str); in.I->print(os); incomplete(s, "unsupported instruction:" + os.str()); return DEAD; }
  }
  die("exec1");
}
