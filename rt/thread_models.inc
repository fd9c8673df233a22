// libstdc++ thread primitives on top of the fs_ scheduler interface (namespace std). Shared by the bitcode models and
// the native replay runtime.
namespace { void threadMain(void *p) { auto *s = (thread::_State *)p; s->_M_run(); delete s; } }
void thread::_M_start_thread(_State_ptr st, void (*)()) { uint64_t id = fs_thread_create(threadMain, st.release()); _M_id._M_thread = id; }
void thread::join() { if (_M_id._M_thread == pthread_self()) __throw_system_error(EINVAL); fs_thread_join(_M_id._M_thread); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds ns) { return fs_futex_wait(a, v, has, has ? s.count() * 1000000000ull + ns.count() : 0); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds ns) { return fs_futex_wait(a, v, has, has ? s.count() * 1000000000ull + ns.count() : 0); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *a) { fs_futex_wake(a); }
