static double g_solverSecondsLeft() { return g_deadline - now(); }
// Program set-up, search loop, parallel exploration, results.
static u64 globalSize(L::GlobalVariable &G) { L::Type *t = G.getValueType(); if (!t->isSized()) return 64; u64 n = g_dl->getTypeAllocSize(t); return n ? n : 1; }
static void setupGlobals(State &s) {
  for (auto &G : g_mod->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    u64 sz = globalSize(G); if (!G.hasInitializer()) sz = max<u64>(sz, 256);
    string *nm = new string(G.getName().str());
    u64 align = 32; if (auto al = G.getAlign()) align = al->value();
    Obj *o = newObj(s, s.g, GBASE, s.gNext, align > 32 ? sz + align : sz, OGlobal, nm->c_str()); if (align > 32) { o->base = (o->base + align - 1) / align * align; o->size = sz; }
    o->zero = true; g_gaddr[&G] = o->base; g_gByAddr[o->base] = &G;
  }
  for (auto &F : *g_mod) if (!F.isIntrinsic()) getFn(&F);
  for (auto &G : g_mod->globals()) {
    if (G.getName().starts_with("llvm.") || !G.hasInitializer()) continue;
    L::Constant *c = G.getInitializer(); u64 a = g_gaddr[&G]; 
    if (!c->isNullValue() && !L::isa<L::UndefValue>(c)) {
      if (auto *cds = L::dyn_cast<L::ConstantDataSequential>(c)) { auto raw = cds->getRawDataValues(); writeConc(writable(s, a), 0, (const u8 *)raw.data(), raw.size()); }
      else { vector<Value> vs; evalConst(c, vs); vector<pair<L::Type *, u64>> lt; leafTypes(G.getValueType(), 0, lt); if (vs.size() != lt.size()) die("initializer shape of " + G.getName().str()); Obj *o = writable(s, a); for (size_t i = 0; i < vs.size(); i++) writeVal(o, lt[i].second, (unsigned)g_dl->getTypeStoreSize(lt[i].first), bitw(lt[i].first), vs[i]); }
    }
    if (G.isConstant()) writable(s, a)->ro = true;
  }
}
static int g_pathSamples = 0;
static void endPath(State &s) {
  g_st.paths++; g_st.pathsOk++;
  if (g_leakCheck && s.liveHeap) reportHere(s, "leak", to_string(s.liveHeap) + " heap objects still allocated");
  // keep a spread-out sample of path witnesses for translator validation
  u64 k = g_st.paths; bool keep = (int)g_samples.size() < g_maxSamples || ((k & (k - 1)) == 0);
  if (keep && !modelUsesUninit(s)) {
    string o = "["; for (size_t i = 0; i < s.obs.size(); i++) { if (i) o += ","; o += to_string(s.obs[i].v.e ? (u64)evalE(s.obs[i].v.e, s.pc.model) : s.obs[i].v.v); }
    string j = "{\"inputs\":" + inputsJson(s, s.pc.model) + ",\"observed\":" + o + "],\"sched\":" + schedJson(s) + ",\"steps\":" + to_string(s.steps) + "}";
    if (g_schedLog) { fprintf(stderr, "PATH %llu\n", (unsigned long long)k); for (size_t i = 0; i < s.slog.size(); i++) fprintf(stderr, "%zu %s\n", i, s.slog[i].c_str()); }
    if ((int)g_samples.size() < g_maxSamples) g_samples.push_back(j); else g_samples[g_pathSamples++ % g_samples.size()] = j;
  }
}
// run until the state ends
static void runState(State *s) {
  u64 chk = 0;
  while (true) {
    Step r = exec1(*s);
    if (r == NEXT) die("NEXT from exec1");
    if (r == DEAD) { if (s->mainDone) endPath(*s); else g_st.paths++; delete s; return; }
    if (s->steps > g_maxSteps) { reportHere(*s, "nontermination", "more than " + to_string(g_maxSteps) + " instructions on one path"); g_st.killedBySteps++; incomplete(*s, "instruction bound per path"); g_st.paths++; delete s; return; }
    if ((++chk & 0xfff) == 0) {
      if (g_sh->stop || now() > g_deadline) { incomplete(*s, g_sh->stop ? "stopped after violations" : "time budget"); delete s; return; }
    }
  }
}
static void writePart() {
  string fn = g_out + "/part." + to_string(getpid()) + ".json"; FILE *o = fopen(fn.c_str(), "w"); if (!o) { fprintf(stderr, "flysym: cannot write %s\n", fn.c_str()); _exit(3); }
  auto mp = [&](map<string, u64> &m) { string r = "{"; bool f = true; for (auto &p : m) { if (!f) r += ","; f = false; r += "\"" + jesc(p.first) + "\":" + to_string(p.second); } return r + "}"; };
  string fns = "["; bool first = true; for (Fn *f : g_fnByIdx) if (f->entered) { if (!first) fns += ","; first = false; fns += "\"" + jesc(f->name) + "\""; } fns += "]";
  string smp = "["; for (size_t i = 0; i < g_samples.size(); i++) { if (i) smp += ","; smp += g_samples[i]; } smp += "]";
  fprintf(o, "{\"paths\":%llu,\"paths_ok\":%llu,\"paths_assumed_away\":%llu,\"instrs\":%llu,\"forks\":%llu,\"asserts\":%llu,\"mem_checks\":%llu,\"sym_addr\":%llu,\"incomplete\":%llu,\"thread_switches\":%llu,", (unsigned long long)g_st.paths, (unsigned long long)g_st.pathsOk, (unsigned long long)g_st.pathsAssumed, (unsigned long long)g_st.instrs, (unsigned long long)g_st.forks, (unsigned long long)g_st.asserts, (unsigned long long)g_st.memChecks, (unsigned long long)g_st.symAddr, (unsigned long long)g_st.incomplete, (unsigned long long)g_st.threadSwitch);
  fprintf(o, "\"queries\":%llu,\"q_model\":%llu,\"q_domain\":%llu,\"q_interval\":%llu,\"q_cache\":%llu,\"q_z3\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_unknown\":%llu,\"z3_fp\":%llu,\"z3_time\":%.3f,", (unsigned long long)g_ss.queries, (unsigned long long)g_ss.modelHits, (unsigned long long)g_ss.fd, (unsigned long long)g_ss.range, (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.z3, (unsigned long long)g_ss.z3sat, (unsigned long long)g_ss.z3unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.fpq, g_ss.z3time);
  fprintf(o, "\"reach\":%s,\"incomplete_reasons\":%s,\"functions\":%s,\"samples\":%s,\"exprs\":%llu}\n", mp(g_reach).c_str(), mp(g_incomplete).c_str(), fns.c_str(), smp.c_str(), (unsigned long long)g_numExprs);
  fclose(o);
}
static void resetStats() { g_st = Stats(); g_ss = SolverStats(); g_reach.clear(); g_incomplete.clear(); g_samples.clear(); g_pathSamples = 0; }
static u64 rssMB() { FILE *f = fopen("/proc/self/statm", "r"); if (!f) return 0; unsigned long a = 0, b = 0; if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); return b * 4096 / 1048576; }
static void explore() {
  u64 iter = 0; int wait = 0;
  while (!g_work.empty()) {
    State *s = g_work.back(); g_work.pop_back();
    runState(s); iter++;
    if (g_sh->stop || now() > g_deadline || (g_maxPaths && (int)g_st.paths >= g_maxPaths)) { for (State *x : g_work) { incomplete(*x, g_sh->stop ? "stopped after violations" : "time budget"); } g_work.clear(); break; }
    if (g_jobs > 1 && g_work.size() >= 2 && ++wait >= 4) {
      int a = g_sh->active.load();
      if (a < g_jobs && g_sh->active.compare_exchange_strong(a, a + 1)) {
        wait = 0; fflush(nullptr);
        // hand out every second pending state, oldest first
        pid_t p = fork();
        if (p == 0) { list<State *> mine; bool t = false; for (State *x : g_work) { if (t) mine.push_back(x); t = !t; } g_work.swap(mine); resetStats(); g_sh->nproc++; srand(getpid()); }
        else if (p > 0) { list<State *> mine; bool t = false; for (State *x : g_work) { if (!t) mine.push_back(x); else delete x; t = !t; } g_work.swap(mine); }
        else g_sh->active--;
      }
    }
    if ((iter & 0xff) == 0 && rssMB() > g_memLimitMB) { for (State *x : g_work) incomplete(*x, "memory budget"); g_work.clear(); break; }
  }
}
static void usage() { fprintf(stderr, "flysym file.bc entry [--out dir] [--time s] [--jobs n] [--steps n] [--param k=v]... [--preempt n] [--timeouts n] [--leaks] [--trace] [--samples n] [--dump dir n]\n"); _exit(2); }
int main(int argc, char **argv) {
  g_t0 = chrono::steady_clock::now();
  if (argc < 3) usage(); string file = argv[1], entry = argv[2];
  for (int i = 3; i < argc; i++) {
    string a = argv[i]; auto nx = [&] { if (i + 1 >= argc) usage(); return string(argv[++i]); };
    if (a == "--out") g_out = nx(); else if (a == "--time") g_deadline = stod(nx()); else if (a == "--jobs") g_jobs = stoi(nx()); else if (a == "--steps") g_maxSteps = stoull(nx()); else if (a == "--preempt") g_maxPreempt = stoi(nx()); else if (a == "--timeouts") g_maxTimeouts = stoi(nx()); else if (a == "--leaks") g_leakCheck = true; else if (a == "--schedlog") g_schedLog = true; else if (a == "--refcounts") g_refPreempt = true; else if (a == "--trace") g_trace = true; else if (a == "--samples") g_maxSamples = stoi(nx()); else if (a == "--maxviol") g_maxViol = stoi(nx()); else if (a == "--maxpaths") g_maxPaths = stoi(nx()); else if (a == "--mem") g_memLimitMB = stoull(nx());
    else if (a == "--rlimit") g_z3Timeout = (unsigned)stoul(nx());
    else if (a == "--dump") { g_dumpDir = nx(); g_dumpMax = stoi(nx()); }
    else if (a == "--param") { string p = nx(); auto e = p.find('='); g_params[p.substr(0, e)] = stoull(p.substr(e + 1)); } else usage();
  }
  if (system(("mkdir -p '" + g_out + "'").c_str())) return 3;
  g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_sh->active = 1; g_sh->viol = 0; g_sh->stop = 0; g_sh->nproc = 1;
  { struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); rlim_t want = 1ull << 30; if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want && (rl.rlim_max == RLIM_INFINITY || rl.rlim_max >= want)) { rl.rlim_cur = want; setrlimit(RLIMIT_STACK, &rl); execv("/proc/self/exe", argv); } }
  registerBuiltins();
  L::SMDiagnostic err; g_mod = L::parseIRFile(file, err, g_ctx); if (!g_mod) { err.print("flysym", L::errs()); return 3; }
  g_dl = &g_mod->getDataLayout();
  State *s = new State(); s->th.push_back(Thread()); s->s.push_back(Table());
  setupGlobals(*s);
  // static initialisers
  if (auto *gc = g_mod->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = L::dyn_cast<L::ConstantArray>(gc->getInitializer())) {
    vector<pair<u64, L::Function *>> cs; for (auto &o : ca->operands()) { auto *st = L::cast<L::ConstantStruct>(o); cs.push_back({L::cast<L::ConstantInt>(st->getOperand(0))->getZExtValue(), L::cast<L::Function>(st->getOperand(1))}); }
    stable_sort(cs.begin(), cs.end(), [](auto &x, auto &y) { return x.first < y.first; });
    for (auto &c : cs) {
      pushFrame(*s, getFn(c.second), {}, nullptr);
      while (!s->th[0].fr.empty()) { Step r = exec1(*s); if (r == DEAD) { if (s->th[0].fr.empty()) break; fprintf(stderr, "flysym: static initialiser failed\n%s", stackOf(*s).c_str()); for (auto &p : g_incomplete) fprintf(stderr, "  %s\n", p.first.c_str()); return 3; } }
      s->th[0].st = TRun; s->mainDone = false;
    }
    if (!g_work.empty()) { fprintf(stderr, "flysym: static initialiser forked\n"); return 3; }
  }
  auto *E0 = g_mod->getFunction(entry); if (!E0 || E0->isDeclaration()) { fprintf(stderr, "flysym: no entry %s\n", entry.c_str()); return 3; }
  s->steps = 0; s->liveHeap = 0; g_st = Stats(); g_initPhase = false;
  pushFrame(*s, getFn(E0), {}, nullptr);
  prctl(PR_SET_CHILD_SUBREAPER, 1); pid_t root = getpid(); g_work.push_back(s);
  explore();
  writePart(); fflush(nullptr);
  g_sh->active--;
  if (getpid() != root) _exit(0);
  // wait for every helper (including indirect ones)
  while (true) { int st; pid_t p = waitpid(-1, &st, WNOHANG); if (p > 0) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { FILE *o = fopen((g_out + "/crash." + to_string(p)).c_str(), "w"); if (o) { fprintf(o, "%d\n", st); fclose(o); } if (!WIFEXITED(st) || WEXITSTATUS(st)) g_sh->active--; } continue; } if (g_sh->active.load() <= 0) break; if (now() > g_deadline + 120) { g_sh->stop = 1; break; } usleep(2000); }
  return g_sh->viol.load() ? 1 : 0;
}
