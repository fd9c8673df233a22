// flysym: symbolic execution of LLVM bitcode with an SMT solver.
#include "state.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <atomic>
#include <deque>
#include <functional>
#include <list>
using namespace std;
namespace L = llvm;

// ================================================================ decoded program
enum IOp : u8 { I_BIN, I_ICMP, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_SELECT, I_LOAD, I_STORE, I_GEP, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL,
  I_UNREACH, I_LPAD, I_RESUME, I_ALLOCA, I_FBIN, I_FCMP, I_FCAST, I_FNEG, I_RMW, I_CMPXCHG, I_FENCE, I_UNSUP };
struct Edge { u32 to; vector<pair<int, int>> moves; };
struct SwitchInfo { vector<pair<u128, int>> cases; int def; };
struct Inst {
  IOp op; u8 sub = 0; u8 atomic = 0, nosync = 0; u16 w = 0, w2 = 0; int dst = -1, a = 0, b = 0, c = 0; i64 imm = 0;
  vector<pair<int, i64>> gep; vector<int> args; vector<u16> argw; Edge *e1 = nullptr, *e2 = nullptr; vector<Edge *> edges; SwitchInfo *sw = nullptr;
  Fn *callee = nullptr; int builtin = -1; L::Instruction *I = nullptr; vector<pair<unsigned, u64>> byval; // arg index, size
  vector<u16> retw;
};
struct Fn { L::Function *F; string name; vector<Inst> code; unsigned nregs = 0; vector<int> argRegs; vector<u16> argWidths; u64 addr = 0; bool decoded = false, entered = false; int builtin = -1; vector<u16> retw; };

static L::LLVMContext g_ctx; static unique_ptr<L::Module> g_mod; static const L::DataLayout *g_dl;
static unordered_map<L::Function *, Fn *> g_fns; static vector<Fn *> g_fnByIdx; static unordered_map<string, Fn *> g_fnByName;
static vector<Value> g_consts; static unordered_map<L::GlobalVariable *, u64> g_gaddr;
static unordered_map<u64, L::GlobalVariable *> g_gByAddr;

// ================================================================ options and shared run data
static double g_deadline = 1e18; static u64 g_maxSteps = 20000000; static int g_maxPreempt = 2, g_maxTimeouts = 3, g_maxForced = 64; static int g_jobs = 1; static string g_out = "."; static int g_maxViol = 3; static u64 g_memLimitMB = 3500;
static bool g_failMalloc = false, g_trace = false, g_leakCheck = false; static int g_maxSamples = 6; static map<string, u64> g_params; static int g_maxPaths = 0; static bool g_spurious = false;
static chrono::steady_clock::time_point g_t0;
static double now() { return chrono::duration<double>(chrono::steady_clock::now() - g_t0).count(); }
struct Shared { atomic<int> active; atomic<int> viol; atomic<int> stop; atomic<u64> nextId; atomic<int> nproc; };
static Shared *g_sh;
struct Stats { u64 paths = 0, pathsOk = 0, pathsAssumed = 0, instrs = 0, forks = 0, states = 0, incomplete = 0, asserts = 0, memChecks = 0, symAddr = 0, threadSwitch = 0, killedBySteps = 0; };
static Stats g_st; static map<string, u64> g_reach; static map<string, u64> g_incomplete; static set<string> g_uninitUse;
static vector<string> g_samples; static set<string> g_violKeys;
static list<State *> g_work; static u64 g_stateId = 0;
static bool g_initPhase = true;

static string jesc(const string &s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static string demangle(const string &s) { return L::demangle(s); }
static string locOf(const Inst *in) {
  if (!in || !in->I) return "?";
  if (auto *d = in->I->getDebugLoc().get()) { auto *sc = d; string r = sc->getFilename().str() + ":" + to_string(sc->getLine()); while (auto *ia = sc->getInlinedAt()) { sc = ia; r += " < " + sc->getFilename().str() + ":" + to_string(sc->getLine()); } return r; }
  return "?";
}
static string stackOf(State &s) {
  string r; Thread &t = s.th[s.cur];
  for (int i = (int)t.fr.size() - 1, n = 0; i >= 0 && n < 14; i--, n++) {
    auto &f = t.fr[i]; u32 pc = f->pc; if (i != (int)t.fr.size() - 1 && pc > 0) pc--;
    string dn = demangle(f->fn->name); if (dn.size() > 110) dn = dn.substr(0, 110) + "...";
    r += "  at " + dn + "  [" + (pc < f->fn->code.size() ? locOf(&f->fn->code[pc]) : string("?")) + "]\n";
  }
  return r;
}

// ================================================================ memory
static Entry *findEntry(State &s, u64 addr, u64 &slotOut, Table *&tab) {
  if (addr >= HBASE && addr < HBASE + REGION) { tab = &s.h; slotOut = (addr - HBASE) / SLOT; }
  else if (addr >= GBASE && addr < GBASE + REGION) { tab = &s.g; slotOut = (addr - GBASE) / SLOT; }
  else if (addr >= SBASE && addr < SBASE + REGION) { u64 t = (addr - SBASE) / TSTACK; if (t >= s.s.size()) return nullptr; tab = &s.s[t]; slotOut = ((addr - SBASE) % TSTACK) / SLOT; }
  else return nullptr;
  Entry *e = tab->get(slotOut);
  if (e && e->back) { slotOut -= e->back; e = tab->get(slotOut); }
  return e;
}
static Obj *findObj(State &s, u64 addr) { u64 sl; Table *t; Entry *e = findEntry(s, addr, sl, t); return e && e->o ? e->o.p : nullptr; }
static Obj *writable(State &s, u64 addr) {
  u64 sl; Table *t; Entry *e = findEntry(s, addr, sl, t); if (!e || !e->o) return nullptr;
  return t->mut(sl)->o.mut();
}
static u32 g_objSerial = 0;
static Obj *newObj(State &s, Table &t, u64 regionBase, u64 &next, u64 size, OKind k, const char *name) {
  u64 slots = (size + 64 + SLOT - 1) / SLOT; if (slots == 0) slots = 1;
  u64 slot = next; next += slots;
  Obj *o = new Obj(); o->base = regionBase + slot * SLOT + 32; // 32-byte aligned, redzone below
  o->size = size; o->kind = k; o->ro = false; o->serial = ++g_objSerial; o->name = name; o->zero = false; o->site = 0;
  o->pages.resize((size + PAGE - 1) / PAGE);
  Entry *e = t.mut(slot); e->o = Ref<Obj>(o); e->back = 0; e->freed = 0;
  for (u64 i = 1; i < slots; i++) { Entry *x = t.mut(slot + i); x->o = Ref<Obj>(); x->back = (u32)i; x->freed = 0; }
  return o;
}
static u64 allocHeap(State &s, u64 size, const char *name) { Obj *o = newObj(s, s.h, HBASE, s.heapNext, size, OHeap, name); s.liveHeap++; return o->base; }
static u64 allocStack(State &s, u64 size, u64 align, const char *name) {
  Thread &t = s.th[s.cur]; Obj *o = newObj(s, s.s[s.cur], SBASE + (u64)s.cur * TSTACK, t.stackNext, align > 32 ? size + align : size, OStack, name);
  if (align > 32) { o->base = (o->base + align - 1) / align * align; o->size = size; }
  t.fr.back().mut()->stackObjs.push_back(o->base); return o->base;
}
static void freeObj(State &s, u64 base) {
  u64 sl; Table *t; Entry *e = findEntry(s, base, sl, t); if (!e || !e->o) return;
  Entry *m = t->mut(sl); u64 slots = (m->o->size + 64 + SLOT - 1) / SLOT; if (!slots) slots = 1;
  m->o = Ref<Obj>(); m->freed = 1;
  (void)slots;
}
static Page *pageMut(Obj *o, u64 pi) { auto &r = o->pages[pi]; if (!r) r = Ref<Page>(new Page()); return r.mut(); }
static E uninitByte(State &s, Obj *o, u64 off) {
  (void)off; E v = mkVar("uninit_" + to_string(s.uninitSeq++), 8, true);
  return v;
}
static E readByteE(State &s, Obj *o, u64 off) {
  Page *p = o->pages[off / PAGE].p; unsigned i = off % PAGE;
  if (p && p->isInit(i)) { if (p->s && p->s[i]) return p->s[i]; return mkC(p->c[i], 8); }
  if (o->zero) return mkC(0, 8);
  E v = uninitByte(s, o, off);
  Obj *w = writable(s, o->base); if (!w) w = o;
  Page *q = pageMut(w, off / PAGE); if (!q->s) q->s = (E *)calloc(PAGE, sizeof(E)); q->s[i] = v; q->setInit(i);
  return v;
}
static void writeByteE(Obj *o, u64 off, E v) {
  Page *p = pageMut(o, off / PAGE); unsigned i = off % PAGE; p->setInit(i);
  if (isC(v)) { p->c[i] = (u8)v->k; if (p->s) p->s[i] = nullptr; }
  else { if (!p->s) p->s = (E *)calloc(PAGE, sizeof(E)); p->s[i] = v; }
}
static void writeConc(Obj *o, u64 off, const u8 *src, u64 n) {
  while (n) {
    u64 i = off % PAGE, k = min<u64>(n, PAGE - i); Page *p = pageMut(o, off / PAGE);
    memcpy(p->c + i, src, k); if (p->s) memset(p->s + i, 0, k * sizeof(E)); for (u64 j = 0; j < k; j++) p->setInit(i + j);
    off += k; src += k; n -= k;
  }
}
static E readE(State &s, Obj *o, u64 off, unsigned bytes) { // little endian
  E r = nullptr;
  for (unsigned i = bytes; i-- > 0;) { E b = readByteE(s, o, off + i); r = r ? mkConcat(r, b) : b; }
  return r;
}
static Value readVal(State &s, Obj *o, u64 off, unsigned bytes, unsigned w) {
  u64 i = off % PAGE;
  if (i + bytes <= PAGE && bytes <= 8) {
    Page *p = o->pages[off / PAGE].p; bool conc = true;
    if (!p) { if (o->zero) return VC(0); conc = false; }
    else { for (unsigned j = 0; j < bytes && conc; j++) { if (!p->isInit(i + j)) { conc = false; } else if (p->s && p->s[i + j]) conc = false; } }
    if (conc) { u64 v = 0; memcpy(&v, p->c + i, bytes); return VC(v & maskw(w)); }
    if (p && !o->zero) { bool allUn = true; for (unsigned j = 0; j < bytes; j++) if (p->isInit(i + j)) allUn = false; (void)allUn; }
  }
  // obtain possibly fresh uninitialised bytes through a stable pointer
  E r = nullptr;
  for (unsigned k = bytes; k-- > 0;) { Obj *oo = findObj(s, o->base); E b = readByteE(s, oo, off + k); r = r ? mkConcat(r, b) : b; o = findObj(s, oo->base); }
  if (w < bytes * 8) r = mkExtract(r, 0, w);
  if (w > 64) return {0, r};
  return VE(r);
}
static void writeVal(Obj *o, u64 off, unsigned bytes, unsigned w, Value v) {
  if (!v.e && w <= 64) { u64 x = v.v & maskw(w); writeConc(o, off, (const u8 *)&x, min(bytes, 8u)); for (unsigned i = 8; i < bytes; i++) writeByteE(o, off + i, mkC(0, 8)); return; }
  E e = toE(v, w); if (w < bytes * 8) e = mkZExt(e, bytes * 8);
  for (unsigned i = 0; i < bytes; i++) writeByteE(o, off + i, mkExtract(e, i * 8, 8));
}

// ================================================================ decoding
static unsigned leafCount(L::Type *t) {
  if (t->isVoidTy()) return 0;
  if (auto *st = L::dyn_cast<L::StructType>(t)) { unsigned n = 0; for (auto *e : st->elements()) n += leafCount(e); return n; }
  if (auto *at = L::dyn_cast<L::ArrayType>(t)) return (unsigned)at->getNumElements() * leafCount(at->getElementType());
  if (auto *vt = L::dyn_cast<L::FixedVectorType>(t)) return vt->getNumElements() * leafCount(vt->getElementType());
  return 1;
}
static unsigned bitw(L::Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80;
  if (t->isHalfTy()) return 16; if (t->isFP128Ty()) return 128; return 64;
}
static void leafTypes(L::Type *t, u64 off, vector<pair<L::Type *, u64>> &out) {
  if (auto *st = L::dyn_cast<L::StructType>(t)) { auto *sl = g_dl->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leafTypes(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto *at = L::dyn_cast<L::ArrayType>(t)) { u64 es = g_dl->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) leafTypes(at->getElementType(), off + i * es, out); return; }
  if (auto *vt = L::dyn_cast<L::FixedVectorType>(t)) {
    if (vt->getElementType()->isIntegerTy(1)) die("vector of i1 in memory");
    u64 es = g_dl->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) leafTypes(vt->getElementType(), off + i * es, out); return; }
  if (!t->isVoidTy()) out.push_back({t, off});
}
// 0 plain access, 1 atomic, 2 atomic update of a shared_ptr reference count
static int atomicKind(L::Instruction &I, bool atomic) {
  if (!atomic) return 0;
  auto ref = [](L::StringRef n) { return n.contains("_Sp_counted_base") || n.contains("__exchange_and_add") || n.contains("__atomic_add") || n.contains("__shared_count") || n.contains("__weak_count") || n.contains("_M_release") || n.contains("_M_weak_release") || n.contains("_M_add_ref") || n.contains("_M_get_use_count") || n.contains("_M_weak_add_ref"); };
  if (ref(I.getFunction()->getName())) return 2;
  for (L::DILocation *l = I.getDebugLoc().get(); l; l = l->getInlinedAt()) if (auto *sp = l->getScope()->getSubprogram()) if (ref(sp->getName()) || ref(sp->getLinkageName())) return 2;
  return 1;
}
static Fn *getFn(L::Function *F);
static void evalConst(L::Constant *c, vector<Value> &out) {
  L::Type *t = c->getType();
  if (L::isa<L::UndefValue>(c)) { vector<pair<L::Type *, u64>> lt; leafTypes(t, 0, lt); for (auto &p : lt) out.push_back(bitw(p.first) > 64 ? Value{0, mkC(0, bitw(p.first))} : VC(0)); return; }
  if (auto *ci = L::dyn_cast<L::ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) out.push_back(VC(ci->getZExtValue()));
    else { auto v = ci->getValue(); u128 x = ((u128)(v.getNumWords() > 1 ? v.getRawData()[1] : 0) << 64) | v.getRawData()[0]; if (ci->getBitWidth() > 128) die("integer constant wider than 128 bits"); out.push_back({0, mkC128(x, ci->getBitWidth())}); }
    return; }
  if (auto *cf = L::dyn_cast<L::ConstantFP>(c)) { auto b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() <= 64) out.push_back(VC(b.getZExtValue())); else out.push_back({0, mkC128(((u128)b.getRawData()[1] << 64) | b.getRawData()[0], b.getBitWidth())}); return; }
  if (L::isa<L::ConstantPointerNull>(c)) { out.push_back(VC(0)); return; }
  if (L::isa<L::ConstantAggregateZero>(c)) { vector<pair<L::Type *, u64>> lt; leafTypes(t, 0, lt); for (auto &p : lt) out.push_back(bitw(p.first) > 64 ? Value{0, mkC(0, bitw(p.first))} : VC(0)); return; }
  if (auto *f = L::dyn_cast<L::Function>(c)) { out.push_back(VC(getFn(f)->addr)); return; }
  if (auto *g = L::dyn_cast<L::GlobalVariable>(c)) { out.push_back(VC(g_gaddr.at(g))); return; }
  if (auto *ga = L::dyn_cast<L::GlobalAlias>(c)) { evalConst(ga->getAliasee(), out); return; }
  if (auto *cds = L::dyn_cast<L::ConstantDataSequential>(c)) { for (unsigned i = 0; i < cds->getNumElements(); i++) evalConst(cds->getElementAsConstant(i), out); return; }
  if (L::isa<L::ConstantStruct>(c) || L::isa<L::ConstantArray>(c) || L::isa<L::ConstantVector>(c)) { for (auto &o : c->operands()) evalConst(L::cast<L::Constant>(o), out); return; }
  if (auto *ce = L::dyn_cast<L::ConstantExpr>(c)) {
    if (auto *gep = L::dyn_cast<L::GEPOperator>(ce)) {
      L::APInt off(64, 0); if (!gep->accumulateConstantOffset(*g_dl, off)) die("constant gep");
      vector<Value> b; evalConst(L::cast<L::Constant>(gep->getPointerOperand()), b); out.push_back(VC(b[0].v + off.getSExtValue())); return; }
    vector<Value> a; evalConst(ce->getOperand(0), a);
    switch (ce->getOpcode()) {
      case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::BitCast: case L::Instruction::Trunc: out.push_back(VC(a[0].v & maskw(bitw(t)))); return;
      default: break; }
    vector<Value> b; evalConst(ce->getOperand(1), b); u64 x = a[0].v, y = b[0].v; unsigned w = bitw(t);
    switch (ce->getOpcode()) {
      case L::Instruction::Add: out.push_back(VC((x + y) & maskw(w))); return; case L::Instruction::Sub: out.push_back(VC((x - y) & maskw(w))); return;
      case L::Instruction::Xor: out.push_back(VC(x ^ y)); return;
      case L::Instruction::ICmp: { auto p = (L::CmpInst::Predicate)ce->getPredicate(); bool r = p == L::CmpInst::ICMP_EQ ? x == y : p == L::CmpInst::ICMP_NE ? x != y : p == L::CmpInst::ICMP_ULT ? x < y : p == L::CmpInst::ICMP_UGT ? x > y : (die("const icmp"), false); out.push_back(VC(r)); return; }
      default: break; }
  }
  string s; L::raw_string_ostream os(s); c->print(os); die("unsupported constant: " + os.str());
}
static int constOp(Value v) {
  static unordered_map<u64, int> m; if (!v.e) { auto it = m.find(v.v); if (it != m.end()) return it->second; }
  g_consts.push_back(v); int r = -(int)g_consts.size(); if (!v.e) m[v.v] = r; return r;
}
typedef bool (*DummyFn)();
static int builtinIndex(const string &name);
static Fn *getFn(L::Function *F) {
  auto it = g_fns.find(F); if (it != g_fns.end()) return it->second;
  Fn *f = new Fn(); f->F = F; f->name = F->getName().str(); f->addr = FBASE + 16 * (u64)(g_fnByIdx.size() + 1); g_fns[F] = f; g_fnByIdx.push_back(f); g_fnByName[f->name] = f;
  f->builtin = F->isDeclaration() ? builtinIndex(f->name) : -1;
  return f;
}
struct Decoder {
  Fn *f; unordered_map<L::Value *, int> reg; unsigned n = 0; unordered_map<L::BasicBlock *, u32> bstart; vector<pair<Edge *, pair<L::BasicBlock *, L::BasicBlock *>>> edges;
  int alloc(unsigned k) { int r = (int)n; n += k; return r; }
  vector<int> ops(L::Value *v) {
    unsigned k = leafCount(v->getType()); vector<int> r;
    if (auto *c = L::dyn_cast<L::Constant>(v)) { vector<Value> vs; evalConst(c, vs); for (auto &x : vs) r.push_back(constOp(x)); return r; }
    auto it = reg.find(v); if (it == reg.end()) { if (v->getType()->isMetadataTy()) return {}; reg[v] = alloc(k); it = reg.find(v); }
    for (unsigned i = 0; i < k; i++) r.push_back(it->second + i); return r;
  }
  int op1(L::Value *v) { auto r = ops(v); if (r.size() != 1) { string s; L::raw_string_ostream os(s); v->print(os); die("operand is not scalar: " + os.str() + " in " + f->name); } return r[0]; }
  Edge *edge(L::BasicBlock *from, L::BasicBlock *to) { Edge *e = new Edge(); edges.push_back({e, {from, to}}); return e; }
  int temp() { return alloc(1); }
  Inst mk(IOp op, L::Instruction *I) { Inst x; x.op = op; x.I = I; return x; }
  static u8 binop(unsigned o) { switch (o) { case L::Instruction::Add: return EAdd; case L::Instruction::Sub: return ESub; case L::Instruction::Mul: return EMul; case L::Instruction::UDiv: return EUDiv; case L::Instruction::SDiv: return ESDiv; case L::Instruction::URem: return EURem; case L::Instruction::SRem: return ESRem; case L::Instruction::And: return EAnd; case L::Instruction::Or: return EOr; case L::Instruction::Xor: return EXor; case L::Instruction::Shl: return EShl; case L::Instruction::LShr: return ELShr; case L::Instruction::AShr: return EAShr; } return 255; }
  void run(Fn *fn) {
    f = fn; L::Function &F = *f->F;
    for (auto &A : F.args()) { unsigned k = leafCount(A.getType()); int r = alloc(k); reg[&A] = r; vector<pair<L::Type *, u64>> lt; leafTypes(A.getType(), 0, lt); for (unsigned i = 0; i < k; i++) { f->argRegs.push_back(r + i); f->argWidths.push_back(bitw(lt[i].first)); } }
    { vector<pair<L::Type *, u64>> lt; leafTypes(F.getReturnType(), 0, lt); for (auto &p : lt) f->retw.push_back(bitw(p.first)); }
    for (auto &B : F) { bstart[&B] = (u32)f->code.size(); for (auto &I : B) one(I); }
    for (auto &p : edges) {
      p.first->to = bstart[p.second.second];
      for (auto &I : *p.second.second) { auto *phi = L::dyn_cast<L::PHINode>(&I); if (!phi) break; auto d = ops(phi), s = ops(phi->getIncomingValueForBlock(p.second.first)); for (size_t i = 0; i < d.size(); i++) p.first->moves.push_back({d[i], s[i]}); }
    }
    f->nregs = n; f->decoded = true;
  }
  void emit(const Inst &x) { f->code.push_back(x); }
  void unsup(L::Instruction &I) { Inst x = mk(I_UNSUP, &I); emit(x); }
  void one(L::Instruction &I) {
    if (L::isa<L::PHINode>(I)) { ops(&I); return; }
    L::Type *T = I.getType();
    if (auto *bo = L::dyn_cast<L::BinaryOperator>(&I)) {
      auto d = ops(&I), a = ops(bo->getOperand(0)), b = ops(bo->getOperand(1)); unsigned w = bitw(T->getScalarType());
      for (size_t i = 0; i < d.size(); i++) {
        Inst x = mk(T->isFPOrFPVectorTy() ? I_FBIN : I_BIN, &I); x.w = w; x.dst = d[i]; x.a = a[i]; x.b = b[i];
        if (x.op == I_FBIN) { switch (bo->getOpcode()) { case L::Instruction::FAdd: x.sub = EFAdd; break; case L::Instruction::FSub: x.sub = EFSub; break; case L::Instruction::FMul: x.sub = EFMul; break; case L::Instruction::FDiv: x.sub = EFDiv; break; default: x.sub = EFRem; } }
        else x.sub = binop(bo->getOpcode());
        emit(x);
      } return; }
    if (auto *u = L::dyn_cast<L::UnaryOperator>(&I)) { auto d = ops(&I), a = ops(u->getOperand(0)); for (size_t i = 0; i < d.size(); i++) { Inst x = mk(I_FNEG, &I); x.w = bitw(T->getScalarType()); x.dst = d[i]; x.a = a[i]; emit(x); } return; }
    if (auto *ic = L::dyn_cast<L::CmpInst>(&I)) {
      auto d = ops(&I), a = ops(ic->getOperand(0)), b = ops(ic->getOperand(1)); unsigned w = bitw(ic->getOperand(0)->getType()->getScalarType());
      for (size_t i = 0; i < d.size(); i++) { Inst x = mk(L::isa<L::ICmpInst>(I) ? I_ICMP : I_FCMP, &I); x.w = w; x.dst = d[i]; x.a = a[i]; x.b = b[i]; x.sub = ic->getPredicate(); emit(x); } return; }
    if (auto *ci = L::dyn_cast<L::CastInst>(&I)) {
      auto *st = ci->getSrcTy(), *dt = ci->getDestTy(); auto d = ops(&I), a = ops(ci->getOperand(0));
      unsigned sw = bitw(st->getScalarType()), dw = bitw(dt->getScalarType());
      if (d.size() != a.size()) { // vector <-> scalar bitcast
        if (a.size() > 1 && d.size() == 1 && dw <= 128) { // concat
          int acc = a[0]; unsigned w = sw;
          for (size_t i = 1; i < a.size(); i++) { Inst x = mk(I_BIN, &I); x.sub = EConcat; x.w = sw; x.w2 = w; x.a = a[i]; x.b = acc; x.dst = i + 1 == a.size() ? d[0] : temp(); emit(x); acc = x.dst; w += sw; }
          return; }
        if (a.size() == 1) { for (size_t i = 0; i < d.size(); i++) { Inst x = mk(I_TRUNC, &I); x.w = sw; x.w2 = dw; x.a = a[0]; x.imm = i * dw; x.dst = d[i]; emit(x); } return; }
        unsup(I); return; }
      for (size_t i = 0; i < d.size(); i++) {
        Inst x = mk(I_MOV, &I); x.dst = d[i]; x.a = a[i]; x.w = sw; x.w2 = dw;
        switch (ci->getOpcode()) {
          case L::Instruction::ZExt: x.op = I_ZEXT; break; case L::Instruction::SExt: x.op = I_SEXT; break; case L::Instruction::Trunc: x.op = I_TRUNC; break;
          case L::Instruction::PtrToInt: x.op = dw < 64 ? I_TRUNC : dw > 64 ? I_ZEXT : I_MOV; break; case L::Instruction::IntToPtr: x.op = sw < 64 ? I_ZEXT : sw > 64 ? I_TRUNC : I_MOV; break;
          case L::Instruction::BitCast: case L::Instruction::AddrSpaceCast: break;
          case L::Instruction::SIToFP: x.op = I_FCAST; x.sub = ESI2F; break; case L::Instruction::UIToFP: x.op = I_FCAST; x.sub = EUI2F; break; case L::Instruction::FPToSI: x.op = I_FCAST; x.sub = EF2SI; break; case L::Instruction::FPToUI: x.op = I_FCAST; x.sub = EF2UI; break;
          case L::Instruction::FPExt: x.op = I_FCAST; x.sub = EFExt; break; case L::Instruction::FPTrunc: x.op = I_FCAST; x.sub = EFTrunc; break;
          default: unsup(I); return; }
        emit(x);
      } return; }
    if (auto *s = L::dyn_cast<L::SelectInst>(&I)) {
      auto d = ops(&I), c = ops(s->getCondition()), a = ops(s->getTrueValue()), b = ops(s->getFalseValue()); vector<pair<L::Type *, u64>> lt; if (T->isVectorTy()) for (size_t i = 0; i < d.size(); i++) lt.push_back({T->getScalarType(), 0}); else leafTypes(T, 0, lt);
      for (size_t i = 0; i < d.size(); i++) { Inst x = mk(I_SELECT, &I); x.w = bitw(lt[i].first); x.dst = d[i]; x.c = c.size() == d.size() ? c[i] : c[0]; x.a = a[i]; x.b = b[i]; emit(x); } return; }
    if (L::isa<L::FreezeInst>(I)) { auto d = ops(&I), a = ops(I.getOperand(0)); for (size_t i = 0; i < d.size(); i++) { Inst x = mk(I_MOV, &I); x.dst = d[i]; x.a = a[i]; emit(x); } return; }
    if (auto *ld = L::dyn_cast<L::LoadInst>(&I)) {
      auto d = ops(&I); int p = op1(ld->getPointerOperand()); vector<pair<L::Type *, u64>> lt; leafTypes(T, 0, lt);
      int tmp = p; if (d.size() > 1 ) { for (int r : d) if (r == p) tmp = -1; }
      for (size_t i = 0; i < d.size(); i++) { Inst x = mk(I_LOAD, &I); x.dst = d[i]; x.a = tmp; x.imm = lt[i].second; x.w = bitw(lt[i].first); x.w2 = g_dl->getTypeStoreSize(lt[i].first); x.atomic = atomicKind(I, ld->isAtomic()); x.nosync = !ld->isAtomic() ? ld->isVolatile() : ld->getOrdering() == L::AtomicOrdering::Monotonic; emit(x); } return; }
    if (auto *st = L::dyn_cast<L::StoreInst>(&I)) {
      auto v = ops(st->getValueOperand()); int p = op1(st->getPointerOperand()); vector<pair<L::Type *, u64>> lt; leafTypes(st->getValueOperand()->getType(), 0, lt);
      bool undef = L::isa<L::UndefValue>(st->getValueOperand());
      for (size_t i = 0; i < v.size(); i++) { Inst x = mk(I_STORE, &I); x.b = v[i]; x.a = p; x.imm = lt[i].second; x.w = bitw(lt[i].first); x.w2 = g_dl->getTypeStoreSize(lt[i].first); x.atomic = atomicKind(I, st->isAtomic()); x.nosync = !st->isAtomic() ? st->isVolatile() : st->getOrdering() == L::AtomicOrdering::Monotonic; x.sub = undef; emit(x); } return; }
    if (auto *gep = L::dyn_cast<L::GetElementPtrInst>(&I)) {
      if (T->isVectorTy()) { unsup(I); return; }
      L::MapVector<L::Value *, L::APInt> vo; L::APInt co(64, 0); if (!L::cast<L::GEPOperator>(gep)->collectOffset(*g_dl, 64, vo, co)) { unsup(I); return; }
      Inst x = mk(I_GEP, &I); x.dst = op1(gep); x.a = op1(gep->getPointerOperand()); x.imm = co.getSExtValue();
      for (auto &p : vo) { unsigned iw = bitw(p.first->getType()); int r = op1(p.first); if (iw < 64) { Inst y = mk(I_SEXT, &I); y.w = iw; y.w2 = 64; y.a = r; y.dst = temp(); emit(y); r = y.dst; } else if (iw > 64) { Inst y = mk(I_TRUNC, &I); y.w = iw; y.w2 = 64; y.a = r; y.dst = temp(); emit(y); r = y.dst; } x.gep.push_back({r, p.second.getSExtValue()}); }
      emit(x); return; }
    if (auto *br = L::dyn_cast<L::BranchInst>(&I)) {
      if (br->isUnconditional()) { Inst x = mk(I_BR, &I); x.e1 = edge(I.getParent(), br->getSuccessor(0)); emit(x); return; }
      Inst x = mk(I_CONDBR, &I); x.a = op1(br->getCondition()); x.e1 = edge(I.getParent(), br->getSuccessor(0)); x.e2 = edge(I.getParent(), br->getSuccessor(1)); emit(x); return; }
    if (auto *sw = L::dyn_cast<L::SwitchInst>(&I)) {
      Inst x = mk(I_SWITCH, &I); x.a = op1(sw->getCondition()); x.w = bitw(sw->getCondition()->getType()); x.sw = new SwitchInfo(); map<L::BasicBlock *, int> tix;
      auto tgt = [&](L::BasicBlock *b) { auto it = tix.find(b); if (it != tix.end()) return it->second; int k = (int)x.edges.size(); x.edges.push_back(edge(I.getParent(), b)); tix[b] = k; return k; };
      x.sw->def = tgt(sw->getDefaultDest());
      for (auto &c : sw->cases()) { auto v = c.getCaseValue()->getValue(); u128 k = v.getBitWidth() > 64 ? (((u128)v.getRawData()[1] << 64) | v.getRawData()[0]) : v.getZExtValue(); x.sw->cases.push_back({k, tgt(c.getCaseSuccessor())}); }
      emit(x); return; }
    if (auto *r = L::dyn_cast<L::ReturnInst>(&I)) { Inst x = mk(I_RET, &I); if (r->getReturnValue()) x.args = ops(r->getReturnValue()); emit(x); return; }
    if (L::isa<L::UnreachableInst>(I)) { emit(mk(I_UNREACH, &I)); return; }
    if (L::isa<L::LandingPadInst>(I)) { Inst x = mk(I_LPAD, &I); x.dst = ops(&I)[0]; emit(x); return; }
    if (auto *r = L::dyn_cast<L::ResumeInst>(&I)) { Inst x = mk(I_RESUME, &I); x.a = ops(r->getValue())[0]; emit(x); return; }
    if (auto *ev = L::dyn_cast<L::ExtractValueInst>(&I)) { auto d = ops(&I), a = ops(ev->getAggregateOperand()); unsigned o = leafOff(ev->getAggregateOperand()->getType(), ev->getIndices()); for (size_t i = 0; i < d.size(); i++) { Inst x = mk(I_MOV, &I); x.dst = d[i]; x.a = a[o + i]; emit(x); } return; }
    if (auto *iv = L::dyn_cast<L::InsertValueInst>(&I)) { auto d = ops(&I), a = ops(iv->getAggregateOperand()), b = ops(iv->getInsertedValueOperand()); unsigned o = leafOff(T, iv->getIndices()); for (size_t i = 0; i < d.size(); i++) { Inst x = mk(I_MOV, &I); x.dst = d[i]; x.a = i >= o && i < o + b.size() ? b[i - o] : a[i]; emit(x); } return; }
    if (auto *ee = L::dyn_cast<L::ExtractElementInst>(&I)) { auto d = ops(&I), a = ops(ee->getVectorOperand()); auto *ci = L::dyn_cast<L::ConstantInt>(ee->getIndexOperand()); if (!ci) { unsup(I); return; } Inst x = mk(I_MOV, &I); x.dst = d[0]; x.a = a[ci->getZExtValue()]; emit(x); return; }
    if (auto *ie = L::dyn_cast<L::InsertElementInst>(&I)) { auto d = ops(&I), a = ops(ie->getOperand(0)), b = ops(ie->getOperand(1)); auto *ci = L::dyn_cast<L::ConstantInt>(ie->getOperand(2)); if (!ci) { unsup(I); return; } for (size_t i = 0; i < d.size(); i++) { Inst x = mk(I_MOV, &I); x.dst = d[i]; x.a = i == ci->getZExtValue() ? b[0] : a[i]; emit(x); } return; }
    if (auto *sv = L::dyn_cast<L::ShuffleVectorInst>(&I)) { auto d = ops(&I), a = ops(sv->getOperand(0)), b = ops(sv->getOperand(1)); auto m = sv->getShuffleMask(); for (size_t i = 0; i < d.size(); i++) { Inst x = mk(I_MOV, &I); x.dst = d[i]; int k = m[i]; x.a = k < 0 ? constOp(VC(0)) : k < (int)a.size() ? a[k] : b[k - a.size()]; emit(x); } return; }
    if (auto *al = L::dyn_cast<L::AllocaInst>(&I)) { Inst x = mk(I_ALLOCA, &I); x.dst = op1(al); x.imm = g_dl->getTypeAllocSize(al->getAllocatedType()); x.a = op1(al->getArraySize()); x.b = (int)al->getAlign().value(); emit(x); return; }
    if (auto *rm = L::dyn_cast<L::AtomicRMWInst>(&I)) { Inst x = mk(I_RMW, &I); x.dst = op1(rm); x.a = op1(rm->getPointerOperand()); x.b = op1(rm->getValOperand()); x.w = bitw(T); x.w2 = g_dl->getTypeStoreSize(T); x.sub = rm->getOperation(); x.atomic = atomicKind(I, true); x.nosync = rm->getOrdering() == L::AtomicOrdering::Monotonic; emit(x); return; }
    if (auto *cx = L::dyn_cast<L::AtomicCmpXchgInst>(&I)) { Inst x = mk(I_CMPXCHG, &I); x.dst = ops(cx)[0]; x.a = op1(cx->getPointerOperand()); x.b = op1(cx->getCompareOperand()); x.c = op1(cx->getNewValOperand()); L::Type *vt = cx->getCompareOperand()->getType(); x.w = bitw(vt); x.w2 = g_dl->getTypeStoreSize(vt); x.atomic = atomicKind(I, true); x.nosync = cx->getSuccessOrdering() == L::AtomicOrdering::Monotonic; emit(x); return; }
    if (L::isa<L::FenceInst>(I)) return;
    if (auto *cb = L::dyn_cast<L::CallBase>(&I)) { call(*cb); return; }
    unsup(I);
  }
  unsigned leafOff(L::Type *t, L::ArrayRef<unsigned> idx) {
    unsigned o = 0;
    for (unsigned i : idx) { if (auto *st = L::dyn_cast<L::StructType>(t)) { for (unsigned k = 0; k < i; k++) o += leafCount(st->getElementType(k)); t = st->getElementType(i); } else { auto *at = L::cast<L::ArrayType>(t); o += i * leafCount(at->getElementType()); t = at->getElementType(); } }
    return o;
  }
  void elementwise(L::CallBase &cb, const string &name) { // vector intrinsic: one builtin call per lane
    auto d = ops(&cb); vector<vector<int>> as; for (auto &A : cb.args()) as.push_back(ops(A)); unsigned w = bitw(cb.getType()->getScalarType());
    for (size_t i = 0; i < d.size(); i++) { Inst x = mk(I_CALL, &cb); x.builtin = builtinIndex(name); x.dst = d[i]; x.w = w; for (auto &a : as) { x.args.push_back(a.size() == d.size() ? a[i] : a[0]); x.argw.push_back(w); } emit(x); }
  }
  void call(L::CallBase &cb) {
    if (L::isa<L::DbgInfoIntrinsic>(cb)) return;
    Inst x = mk(I_CALL, &cb); L::Function *cf = cb.getCalledFunction();
    if (!cf) if (auto *ga = L::dyn_cast<L::GlobalAlias>(cb.getCalledOperand())) cf = L::dyn_cast<L::Function>(ga->getAliaseeObject());
    if (!cf) if (auto *g = L::dyn_cast<L::Function>(cb.getCalledOperand()->stripPointerCasts())) cf = g;
    if (cb.isInlineAsm()) { // only empty asm (barriers) is accepted
      auto *ia = L::cast<L::InlineAsm>(cb.getCalledOperand()); if (ia->getAsmString().empty() || ia->getAsmString().find("pause") == 0 || ia->getAsmString() == "rep; nop") return; unsup(cb); return; }
    if (cf && cf->isIntrinsic()) {
      using namespace L::Intrinsic;
      switch (cf->getIntrinsicID()) {
        case dbg_declare: case dbg_value: case dbg_label: case lifetime_end: case invariant_start: case invariant_end: case experimental_noalias_scope_decl: case donothing: case assume: case var_annotation: case prefetch: case sideeffect: return;
        case lifetime_start: return;
        case stacksave: case stackrestore: return;
        default: break; }
    }
    vector<pair<L::Type *, u64>> rl; leafTypes(cb.getType(), 0, rl); for (auto &p : rl) x.retw.push_back(bitw(p.first));
    if (!rl.empty()) x.dst = ops(&cb)[0];
    if (cf && cf->isIntrinsic()) {
      string nm = cf->getName().str(); // strip type suffixes
      string base = L::Intrinsic::getBaseName(cf->getIntrinsicID()).str();
      if (cb.getType()->isVectorTy()) { elementwise(cb, base); return; }
      x.builtin = builtinIndex(base); x.w = rl.empty() ? 0 : bitw(rl[0].first);
      if (base == "llvm.eh.typeid.for") {}
      if (x.builtin < 0) { unsup(cb); return; }
    } else if (cf) { x.callee = getFn(cf); }
    else { x.a = op1(cb.getCalledOperand()); x.sub = 1; }
    unsigned ai = 0;
    for (auto &A : cb.args()) {
      if (A->getType()->isMetadataTy()) { ai++; continue; }
      auto o = ops(A); vector<pair<L::Type *, u64>> lt; leafTypes(A->getType(), 0, lt);
      if (cb.isByValArgument(ai)) x.byval.push_back({(unsigned)x.args.size(), g_dl->getTypeAllocSize(cb.getParamByValType(ai))});
      for (size_t i = 0; i < o.size(); i++) { x.args.push_back(o[i]); x.argw.push_back(bitw(lt[i].first)); }
      ai++; }
    if (auto *inv = L::dyn_cast<L::InvokeInst>(&cb)) { x.e1 = edge(cb.getParent(), inv->getNormalDest()); x.e2 = edge(cb.getParent(), inv->getUnwindDest()); }
    emit(x);
    if (x.builtin >= 0 && x.e1) {}
  }
};
static void decode(Fn *f) { if (!f->decoded) { Decoder d; d.run(f); } }

#include "exec.hpp"
#include "builtins.hpp"
#include "main.hpp"
