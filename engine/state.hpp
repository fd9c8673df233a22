// Execution state: copy-on-write memory, frames, threads.
#pragma once
#include "solver.hpp"
#include <map>
#include <set>

template <class T> struct Ref {
  T *p = nullptr;
  Ref() {} Ref(T *q) : p(q) { if (p) p->rc++; }
  Ref(const Ref &o) : p(o.p) { if (p) p->rc++; } Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  Ref &operator=(const Ref &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
  Ref &operator=(Ref &&o) noexcept { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
  ~Ref() { drop(); }
  void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
  T *operator->() const { return p; } explicit operator bool() const { return p; }
  T *mut() { if (p->rc > 1) { T *q = new T(*p); q->rc = 0; *this = Ref(q); } return p; }
};

struct Value { u64 v; E e; };
static inline Value VC(u64 v) { return {v, nullptr}; }
static inline Value VE(E e) { if (isC(e) && e->w <= 64) return {e->k, nullptr}; return {0, e}; }
static inline E toE(const Value &x, unsigned w) { return x.e ? x.e : mkC(x.v, w); }

static const unsigned PAGE = 256;
struct Epoch { u8 wt = 0, rt = 0; u16 wc = 0, rc = 0; }; // last write and last read: thread and its clock (0: none)
struct Page {
  u32 rc = 0; u8 c[PAGE]; E *s = nullptr; u64 init[PAGE / 64]; Epoch *ep = nullptr;
  Page() { memset(c, 0, sizeof c); memset(init, 0, sizeof init); }
  Page(const Page &o) { memcpy(c, o.c, sizeof c); memcpy(init, o.init, sizeof init); if (o.s) { s = (E *)malloc(PAGE * sizeof(E)); memcpy(s, o.s, PAGE * sizeof(E)); } if (o.ep) { ep = new Epoch[PAGE]; memcpy((void *)ep, o.ep, PAGE * sizeof(Epoch)); } }
  ~Page() { free(s); delete[] ep; }
  bool isInit(unsigned i) const { return init[i >> 6] >> (i & 63) & 1; }
  void setInit(unsigned i) { init[i >> 6] |= 1ull << (i & 63); }
};
enum OKind : u8 { OGlobal, OHeap, OStack };
struct Obj {
  u32 rc = 0; u64 base, size; OKind kind; bool ro; u32 serial; const char *name; u64 site; u8 allocKind = 0;
  bool zero; // uninitialised bytes read as zero (globals, calloc)
  std::vector<Ref<Page>> pages;
};
struct Entry { Ref<Obj> o; u32 back = 0; u8 freed = 0; };
static const unsigned CH = 32;
struct Chunk { u32 rc = 0; Entry e[CH]; };
struct Table {
  std::vector<Ref<Chunk>> ch;
  Entry *get(u64 i) { if (i / CH >= ch.size() || !ch[i / CH]) return nullptr; return &ch[i / CH]->e[i % CH]; }
  Entry *mut(u64 i) {
    if (i / CH >= ch.size()) ch.resize(i / CH + 1);
    auto &r = ch[i / CH]; if (!r) r = Ref<Chunk>(new Chunk());
    return &r.mut()->e[i % CH];
  }
};
static const u64 SLOT = 65536, GBASE = 0x100000000000ull, SBASE = 0x200000000000ull, HBASE = 0x300000000000ull, FBASE = 0x400000000000ull, REGION = 0x100000000000ull;
static const u64 TSTACK = 1ull << 36; // address space per thread stack

struct Fn; struct Inst;
struct Frame {
  u32 rc = 0; Fn *fn; u32 pc = 0; std::vector<Value> regs; std::vector<u64> stackObjs; bool discardRet = false; u8 onReturn = 0; u64 aux = 0;
};
enum TStat : u8 { TRun, TMutex, TCond, TJoin, TDone, TWaitAddr };
struct Thread {
  std::vector<Ref<Frame>> fr; TStat st = TRun; u64 wait = 0, mutex = 0, deadline = 0; bool timed = false, timedOut = false, chosen = false, notified = false;
  u64 stackNext = 0; std::vector<u64> caught; std::vector<u64> excStack; bool detached = false; u64 handle = 0;
  std::map<u64, u64> tls; std::vector<u16> vc;
};
struct Input { std::string name; u8 kind; u16 w; E e; u64 val; };
struct Obs { u16 w; Value v; };
struct ExcInfo { u64 tinfo, dtor; int handlers; int refs; bool rethrown; };
struct Mtx { int owner = -1; int count = 0; };
struct State {
  u64 id = 0; std::vector<Thread> th; int cur = 0;
  Table g, h; std::vector<Table> s; u64 heapNext = 0, gNext = 0; std::vector<u64> stackTops;
  PC pc; u64 steps = 0; u32 forks = 0; int seq = 0; int uninitSeq = 0;
  std::vector<Input> in; std::vector<Obs> obs; std::map<std::string, int> nameSeq;
  std::map<u64, ExcInfo> exc; std::map<u64, Mtx> mtx;
  int preempt = 0, timeouts = 0, forced = 0; u64 clock = 0; u64 liveHeap = 0;
  std::map<u64, u64> kv; // engine-level key/value store for harnesses
  std::vector<u8> sched; std::vector<std::string> slog;
  std::map<u64, std::vector<u16>> hb; // happens-before clocks of synchronisation objects
  bool mainDone = false; E forcedE = nullptr; bool forcedV = false;
};
