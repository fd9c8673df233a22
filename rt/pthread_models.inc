// pthread_once, reader/writer locks and sleeping on top of the fs_ scheduler interface (C linkage). Shared by the bitcode
// models and the native replay runtime. The words involved are volatile: they stand for the library's internal atomics.
int EXPORT(pthread_once)(pthread_once_t *o, void (*f)(void)) {
  volatile unsigned *p = (volatile unsigned *)o;
  while (true) { fs_yield(); if (*p == 2) { fs_hb(o, false); return 0; } if (*p == 0) { *p = 1; f(); fs_hb(o, true); *p = 2; fs_futex_wake(o); return 0; } fs_futex_wait(o, 1, false, 0); } }
// writer-exclusive, built on a futex word (0 free, n readers, ~0 writer)
int EXPORT(pthread_rwlock_rdlock)(pthread_rwlock_t *l) { volatile unsigned *p = (volatile unsigned *)l; while (true) { fs_yield(); if (*p != ~0u) { *p = *p + 1; fs_hb(l, false); return 0; } fs_futex_wait(l, ~0u, false, 0); } }
int EXPORT(pthread_rwlock_wrlock)(pthread_rwlock_t *l) { volatile unsigned *p = (volatile unsigned *)l; while (true) { fs_yield(); if (*p == 0) { *p = ~0u; fs_hb(l, false); return 0; } fs_futex_wait(l, *p, false, 0); } }
int EXPORT(pthread_rwlock_unlock)(pthread_rwlock_t *l) { volatile unsigned *p = (volatile unsigned *)l; fs_hb(l, true); if (*p == ~0u) *p = 0; else *p = *p - 1; fs_futex_wake(l); return 0; }
static unsigned g_never;
int EXPORT(nanosleep)(const struct timespec *t, struct timespec *) { fs_futex_wait(&g_never, 0, true, fs_clock_advance(0) + t->tv_sec * 1000000000ull + t->tv_nsec); return 0; }
