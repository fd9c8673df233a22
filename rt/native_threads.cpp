// Native replay of a thread schedule: real pthreads run one at a time and hand the baton over at the same synchronisation
// operations, in the order recorded in the file FS_SCHED. Code under test is compiled with ThreadSanitizer instrumentation;
// this file supplies the instrumentation's run-time: atomics are scheduling points and plain accesses are checked for
// happens-before ordering, so that a recorded data race can be confirmed on the real code.
#include "flysym.h"
#include <cerrno>
#include <chrono>
#include <climits>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <execinfo.h>
#include <fstream>
#include <future>
#include <linux/futex.h>
#include <mutex>
#include <pthread.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <vector>

extern char __executable_start, etext;
#define FROM_EXE ((char *)__builtin_return_address(0) >= &__executable_start && (char *)__builtin_return_address(0) < &etext)
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }

namespace {
enum St { Run, Mtx, Cond, Join, Done, Wait };
typedef std::vector<unsigned> VC;
struct T { St st = Run; const void *wait = nullptr, *mutex = nullptr; uint64_t joinId = 0; bool timed = false, chosen = false, notified = false; int go = 0; uint64_t deadline = 0; VC vc; };
std::vector<T *> th; thread_local int self = 0; int cur = 0;
std::vector<int> sched; size_t pos = 0; int forced = 0; bool inited = false;
std::unordered_map<const void *, int> owner; std::unordered_map<const void *, VC> hbs;
struct Ep { int wt = 0, rt = 0; unsigned wc = 0, rc = 0; };
struct Chunk { Ep e[256]; };
std::unordered_map<uintptr_t, Chunk> shadow;
std::unordered_map<void *, size_t> sizes; bool inRt = false; // set while this run-time itself allocates
struct InRt { bool old = inRt; InRt() { inRt = true; } ~InRt() { inRt = old; } };
struct Range { uintptr_t lo, hi; }; std::vector<Range> stacks;
[[noreturn]] void fin(const char *m, int rc) { printf("%s\n", m); fflush(stdout); _exit(rc); }
void addStack() { pthread_attr_t a; void *p; size_t n; real<int (*)(pthread_t, pthread_attr_t *)>("pthread_getattr_np")(real<pthread_t (*)()>("pthread_self")(), &a); pthread_attr_getstack(&a, &p, &n); pthread_attr_destroy(&a); stacks.push_back({(uintptr_t)p, (uintptr_t)p + n}); }
bool up = false; // this file's variables are constructed
void init() {
  if (inited || !up) return; inited = true; th.reserve(256); th.push_back(new T()); th[0]->vc = {1}; addStack();
  if (auto *f = getenv("FS_SCHED")) { std::ifstream i(f); int x; while (i >> x) sched.push_back(x); }
}
T &me() { init(); return *th[cur]; }
int alive() { int n = 0; for (auto *t : th) n += t->st != Done; return n; }
bool freeMtx(const void *m) { auto it = owner.find(m); return it == owner.end() || it->second < 0; }
bool runnable(int i) {
  T &t = *th[i];
  switch (t.st) {
    case Run: return true; case Done: return false; case Mtx: return freeMtx(t.wait);
    case Cond: return t.notified && freeMtx(t.mutex);
    case Join: return t.joinId < th.size() && th[t.joinId]->st == Done;
    case Wait: return t.notified;
  }
  return false;
}
bool canTimeOut(int i) { T &t = *th[i]; if (!t.timed || t.notified) return false; return t.st == Wait || (t.st == Cond && freeMtx(t.mutex)); }
void futexWait(int *p) { while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT, 0, nullptr, nullptr, 0); __atomic_store_n(p, 0, __ATOMIC_RELEASE); }
void handOver(int to) { int from = self; cur = to; if (to == from) return; T *t = th[to]; T *f = th[from]; bool stay = f->st != Done;
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); syscall(SYS_futex, &t->go, FUTEX_WAKE, 1, nullptr, nullptr, 0);
  if (stay) futexWait(&f->go); }
void schedule(bool mustSwitch) {
  int to = -1; static bool tr = getenv("FS_TRACE") != nullptr; if (tr) { printf("%zu %d>%d", pos, cur, pos < sched.size() ? sched[pos] : -1); void *b[6]; int n = backtrace(b, 6); for (int i = 1; i < n; i++) printf(" %lx", (unsigned long)((char *)b[i] - &__executable_start)); printf("\n"); fflush(stdout); }
  if (pos < sched.size()) { to = sched[pos++]; if (to < 0 || to >= (int)th.size() || !(runnable(to) || canTimeOut(to))) fin("FS_DIVERGED scheduled thread cannot run", 44); }
  else {
    if (!mustSwitch && runnable(cur)) to = cur;
    for (int k = 1; to < 0 && k <= (int)th.size(); k++) { int i = (cur + k) % (int)th.size(); if (runnable(i)) to = i; }
    if (to < 0) { for (int k = 1; k <= (int)th.size(); k++) { int i = (cur + k) % (int)th.size(); if (canTimeOut(i) && (to < 0 || th[i]->deadline < th[to]->deadline)) to = i; } if (to >= 0 && ++forced > 64) fin(th[0]->timed || th[0]->st == Done || th[0]->st == Run ? "FS_INCOMPLETE bound on timed wake-ups" : "FS_VIOLATION the main thread still waits after 64 timed waits of other threads ran out", th[0]->timed || th[0]->st == Done || th[0]->st == Run ? 44 : 42); }
    if (to < 0) fin("FS_VIOLATION every thread is blocked", 42);
  }
  th[to]->chosen = true; handOver(to);
}
// scheduling point before an operation; on return the operation may run
void syncPoint() { init(); if (!up) return; while (true) { T &t = me(); if (t.chosen) { t.chosen = false; return; } if (alive() <= 1) return; schedule(false); } }
void join(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
VC &vc() { InRt r; T &t = me(); if ((int)t.vc.size() <= cur) t.vc.resize(cur + 1, 0); if (!t.vc[cur]) t.vc[cur] = 1; return t.vc; }
void acquire(const void *k) { if (!up || th.size() < 2) return; InRt r; auto it = hbs.find(k); if (it != hbs.end()) join(vc(), it->second); }
void release(const void *k) { if (!up || th.size() < 2) return; InRt r; auto &v = vc(); join(hbs[k], v); v[cur]++; }
void access(const void *p, size_t n, bool wr) {
  if (!up || th.size() < 2 || !n) return; InRt r; uintptr_t a = (uintptr_t)p;
  for (auto &k : stacks) if (a >= k.lo && a < k.hi) return;
  VC &v = vc();
  for (uintptr_t i = a; i < a + n; i++) {
    Ep &e = shadow[i >> 8].e[i & 255];
    if (e.wc && e.wt != cur && (e.wt >= (int)v.size() || e.wc > v[e.wt])) fin("FS_VIOLATION data race (write by another thread is not ordered before this access)", 42);
    if (wr && e.rc && e.rt != cur && (e.rt >= (int)v.size() || e.rc > v[e.rt])) fin("FS_VIOLATION data race (read by another thread is not ordered before this write)", 42);
    if (wr) { e.wt = cur; e.wc = v[cur]; } else { e.rt = cur; e.rc = v[cur]; }
  }
}
void forget(void *p, size_t n) { uintptr_t a = (uintptr_t)p; for (uintptr_t i = a; i < a + n; i++) { auto it = shadow.find(i >> 8); if (it != shadow.end()) it->second.e[i & 255] = Ep(); } }
struct Start { void (*fn)(void *); void *arg; int id; };
void *threadBody(void *p) {
  Start s = *(Start *)p; free(p); self = s.id; futexWait(&th[self]->go); { InRt i; addStack(); }
  s.fn(s.arg);
  th[self]->st = Done; schedule(true); return nullptr;
}
bool fwait(const void *a, uint32_t v, bool timed, uint64_t deadline) {
  syncPoint(); if (*(volatile const uint32_t *)a != v) return true;
  T &t = me(); t.st = Wait; t.wait = a; t.timed = timed; t.deadline = deadline; t.notified = false; schedule(true);
  T &u = me(); u.chosen = false; u.st = Run; bool to = !u.notified; u.notified = false; if (to) { if (deadline > fs_clock_advance(0)) fs_clock_advance(deadline - fs_clock_advance(0)); } return !to;
}
int condWait(const void *c, const void *m, bool timed, uint64_t deadline) {
  syncPoint(); if (freeMtx(m) || owner[m] != cur) fin("FS_VIOLATION condition wait without holding the mutex", 42);
  owner[m] = -1; release(m); T &t = me(); t.st = Cond; t.wait = c; t.mutex = m; t.timed = timed; t.deadline = deadline; t.notified = false; schedule(true);
  T &u = me(); u.chosen = false; u.st = Run; bool to = !u.notified; u.notified = false; if (to) { if (deadline > fs_clock_advance(0)) fs_clock_advance(deadline - fs_clock_advance(0)); }
  owner[m] = cur; acquire(m); return to ? ETIMEDOUT : 0;
}
void notify(const void *c, bool all) {
  syncPoint(); InRt r; std::vector<int> w; for (int i = 0; i < (int)th.size(); i++) if (th[i]->st == Cond && th[i]->wait == c && !th[i]->notified) w.push_back(i);
  if (all) { for (int i : w) th[i]->notified = true; return; }
  if (w.empty()) return; int k = w[0];
  if (w.size() > 1 && pos < sched.size()) { k = sched[pos++] - 100; bool ok = false; for (int i : w) ok |= i == k; if (!ok) fin("FS_DIVERGED notified thread is not waiting", 44); }
  th[k]->notified = true;
}
} // namespace

extern "C" {
void fs_hb(const void *a, bool rel) { if (rel) release(a); else acquire(a); }
void fs_yield(void) { syncPoint(); }
uint64_t fs_futex_wait(const void *a, uint32_t v, bool timed, uint64_t dl) { return fwait(a, v, timed, dl); }
void fs_futex_wake(const void *a) { syncPoint(); for (auto *t : th) if (t->st == Wait && t->wait == a) t->notified = true; }
uint64_t fs_thread_create(void (*fn)(void *), void *arg) {
  syncPoint(); InRt r; int id = (int)th.size(); T *t = new T(); { VC &v = vc(); t->vc = v; t->vc.resize(id + 1, 0); t->vc[id] = 1; v[cur]++; } th.push_back(t);
  pthread_t p; if (real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create")(&p, nullptr, threadBody, [&] { auto *x = (Start *)malloc(sizeof(Start)); *x = {fn, arg, id}; return x; }())) fin("FS_NOTHREAD", 44);
  real<int (*)(pthread_t)>("pthread_detach")(p); return (uint64_t)id + 1;
}
void fs_thread_join(uint64_t id) {
  id--; if (id >= th.size()) fin("FS_VIOLATION join of an invalid thread", 42);
  bool first = true;
  while (true) { T &t = me(); if (th[id]->st == Done) { InRt r; join(vc(), th[id]->vc); t.st = Run; t.chosen = false; return; } if (first) { syncPoint(); first = false; } T &u = me(); u.st = Join; u.joinId = id; schedule(true); }
}
// pthread interface as seen by the code under test
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!FROM_EXE) { static decltype(real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock")) f = nullptr; if (!f) f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock"); return f(m); }
  if (!up) return 0;
  syncPoint(); bool blocked = false;
  while (!freeMtx(m)) { if (!blocked && owner[m] == cur) fin("FS_VIOLATION thread locks a mutex it already holds", 42); blocked = true; T &t = me(); t.st = Mtx; t.wait = m; schedule(true); me().chosen = false; me().st = Run; }
  owner[m] = cur; acquire(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!FROM_EXE) { static decltype(real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock")) f = nullptr; if (!f) f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock"); return f(m); } if (!up) return 0; syncPoint(); if (!freeMtx(m)) return EBUSY; owner[m] = cur; acquire(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!FROM_EXE) { static decltype(real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock")) f = nullptr; if (!f) f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock"); return f(m); } if (!up) return 0; init(); if (freeMtx(m) || owner[m] != cur) fin("FS_VIOLATION unlock of a mutex the thread does not hold", 42); release(m); owner[m] = -1; return 0; }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { return condWait(c, m, true, (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec); }
pthread_t pthread_self() noexcept { if (!FROM_EXE) { static decltype(real<pthread_t (*)()>("pthread_self")) f = nullptr; if (!f) f = real<pthread_t (*)()>("pthread_self"); return f(); } init(); return (pthread_t)(cur + 1); }
#define EXPORT(n) my_##n
#include "pthread_models.inc"
#undef EXPORT
int pthread_once(pthread_once_t *o, void (*f)(void)) { if (!FROM_EXE) { static decltype(real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once")) r = nullptr; if (!r) r = real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once"); return r(o, f); } return my_pthread_once(o, f); }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept { if (!FROM_EXE) { static decltype(real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock")) r = nullptr; if (!r) r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock"); return r(l); } return my_pthread_rwlock_rdlock(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept { if (!FROM_EXE) { static decltype(real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock")) r = nullptr; if (!r) r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock"); return r(l); } return my_pthread_rwlock_wrlock(l); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept { if (!FROM_EXE) { static decltype(real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock")) r = nullptr; if (!r) r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock"); return r(l); } return my_pthread_rwlock_unlock(l); }
int nanosleep(const struct timespec *t, struct timespec *r) { if (!FROM_EXE) { static decltype(real<int (*)(const struct timespec *, struct timespec *)>("nanosleep")) f = nullptr; if (!f) f = real<int (*)(const struct timespec *, struct timespec *)>("nanosleep"); return f(t, r); } return my_nanosleep(t, r); }
time_t time(time_t *t) noexcept { if (!FROM_EXE) { static decltype(real<time_t (*)(time_t *)>("time")) f = nullptr; if (!f) f = real<time_t (*)(time_t *)>("time"); return f(t); } time_t v = (time_t)(1600000000ull + fs_clock_advance(0) / 1000000000ull); if (t) *t = v; return v; }
int __cxa_guard_acquire(uint64_t *g) { volatile char *b = (volatile char *)g; if (!up) return !*b; init(); while (true) { if (*b) { acquire(g); return 0; } if (th.size() <= 1 || freeMtx(g)) { owner[g] = cur; acquire(g); return 1; } T &t = me(); t.st = Mtx; t.wait = g; schedule(true); me().chosen = false; me().st = Run; } }
void __cxa_guard_release(uint64_t *g) { *(volatile char *)g = 1; if (up) { release(g); owner[g] = -1; } }
void __cxa_guard_abort(uint64_t *g) { if (up) owner[g] = -1; }
}
namespace std {
void condition_variable::wait(unique_lock<mutex> &l) { condWait(this, l.mutex()->native_handle(), false, 0); }
void condition_variable::notify_one() noexcept { notify(this, false); }
void condition_variable::notify_all() noexcept { notify(this, true); }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
#include "thread_models.inc"
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(fs_clock_advance(0))); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(fs_clock_advance(0))); }
} }
} // namespace std
// allocation: remember block sizes so that releasing memory counts as a write to all of it
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); if (up && !inRt && th.size() > 1) { InRt i; sizes[p] = n; forget(p, n); } return p; }
void operator delete(void *p) noexcept { if (p && up && !inRt && th.size() > 1) { InRt r; auto it = sizes.find(p); if (it != sizes.end()) { access(p, it->second, true); forget(p, it->second); sizes.erase(it); } } free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }

// run-time of the instrumentation
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_vptr_read(void **p) { access(p, 8, false); } void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } void __tsan_read_write##n(void *p) { access(p, n, true); } void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } void __tsan_unaligned_read_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); } void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
#define HB(o, rd, wr) do { if ((o) != __ATOMIC_RELAXED) { if (rd) acquire((const void *)p); if (wr) release((const void *)p); } } while (0)
#define AT(n, t) \
  t __tsan_atomic##n##_load(const volatile t *p, int o) { syncPoint(); t r = *p; HB(o, true, false); return r; } \
  void __tsan_atomic##n##_store(volatile t *p, t v, int o) { syncPoint(); *p = v; HB(o, false, true); } \
  t __tsan_atomic##n##_exchange(volatile t *p, t v, int o) { syncPoint(); t r = *p; *p = v; HB(o, true, true); return r; } \
  t __tsan_atomic##n##_fetch_add(volatile t *p, t v, int o) { syncPoint(); t r = *p; *p = (t)(r + v); HB(o, true, true); return r; } \
  t __tsan_atomic##n##_fetch_sub(volatile t *p, t v, int o) { syncPoint(); t r = *p; *p = (t)(r - v); HB(o, true, true); return r; } \
  t __tsan_atomic##n##_fetch_and(volatile t *p, t v, int o) { syncPoint(); t r = *p; *p = (t)(r & v); HB(o, true, true); return r; } \
  t __tsan_atomic##n##_fetch_or(volatile t *p, t v, int o) { syncPoint(); t r = *p; *p = (t)(r | v); HB(o, true, true); return r; } \
  t __tsan_atomic##n##_fetch_xor(volatile t *p, t v, int o) { syncPoint(); t r = *p; *p = (t)(r ^ v); HB(o, true, true); return r; } \
  t __tsan_atomic##n##_compare_exchange_val(volatile t *p, t c, t v, int o, int) { syncPoint(); t r = *p; bool eq = r == c; if (eq) *p = v; HB(o, true, eq); return r; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile t *p, t *c, t v, int o, int) { syncPoint(); t r = *p; bool eq = r == *c; if (eq) *p = v; else *c = r; HB(o, true, eq); return eq; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile t *p, t *c, t v, int o, int f) { return __tsan_atomic##n##_compare_exchange_strong(p, c, v, o, f); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }
}
namespace { struct SetUp { SetUp() { up = true; } ~SetUp() { up = false; } } setUp; }
