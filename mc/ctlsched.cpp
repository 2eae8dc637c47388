// See ctlsched.h.  Compiled without ThreadSanitizer and without any C++ library code.
#include "ctlsched.h"

#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

SchedDecision sched_trace[SCHED_MAX];
int sched_len, sched_points, sched_deadlock, sched_diverged;

namespace {
enum { NT = 8 };
enum St : int { NEW, READY, BLOCKED, DONE };
int nthreads, cur = -1, running, spins;
int st[NT];
const void *waits[NT];          // object a blocked thread waits for
int turn[NT + 1];               // futex words; [NT] is the controlling thread
const unsigned char *pre; int npre;
__thread int me = -1;

void fwait(int *w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
void fwake(int *w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

// picks the next thread; cur_ok: the running thread could go on; voluntary: leaving it is not a preemption
int pick(bool cur_ok, bool voluntary) {
  unsigned en = 0; int first = -1, n = 0;
  for (int i = 0; i < nthreads; i++) if (st[i] == READY) { en |= 1u << i; n++; if (first < 0) first = i; }
  if (!n) return -1;
  int def = cur_ok && !voluntary ? cur : -1;
  if (def < 0) { for (int k = 1; k <= nthreads; k++) { int i = ((cur < 0 ? nthreads - 1 : cur) + k) % nthreads; if (st[i] == READY) { def = i; break; } } }
  if (n == 1) return def;
  int c = def;
  if (sched_len < npre) { c = pre[sched_len]; if (c >= nthreads || !(en & (1u << c))) { c = def; sched_diverged = 1; } }
  if (sched_len < SCHED_MAX) {
    SchedDecision &d = sched_trace[sched_len];
    d.cur = cur < 0 ? 255 : cur; d.cur_enabled = cur_ok; d.voluntary = voluntary; d.chosen = c; d.enabled = en;
    sched_len++;
  }
  return c;
}
void switch_to(int n, bool sleep) {
  int self = me;
  if (n == self) return;
  spins = 0;
  cur = n;
  fwake(&turn[n]);
  if (sleep) fwait(&turn[self]);
}
void point(bool voluntary = false) {
  if (me < 0 || !running) return;
  sched_points++;
  if (++spins > 20000) { spins = 0; voluntary = true; }   // a thread that only spins gives way
  switch_to(pick(true, voluntary), true);
}
void block(const void *o) {
  st[me] = BLOCKED; waits[me] = o;
  int n = pick(false, false);
  if (n < 0) { sched_deadlock = 1; running = 0; fwake(&turn[NT]); for (;;) pause(); }
  switch_to(n, true);
}
void wake(const void *o, int howmany = NT) { for (int i = 0; i < nthreads && howmany; i++) if (st[i] == BLOCKED && waits[i] == o) { st[i] = READY; waits[i] = nullptr; howmany--; } }

// lock table: writer = owner + 1, readers = count
struct L { const void *o; int writer, readers; };
L locks[1024];
L *at(const void *o) {
  for (unsigned k = 0, h = (unsigned)(((uintptr_t)o >> 4) * 2654435761u) % 1024; k < 1024; k++, h = (h + 1) % 1024) { if (locks[h].o == o) return &locks[h]; if (!locks[h].o) { locks[h].o = o; return &locks[h]; } }
  return nullptr;
}
bool on() { return me >= 0 && running; }
void acquire(const void *o, bool shared) {
  point();
  for (;;) { L *l = at(o); if (!l) return; if (shared ? !l->writer : !l->writer && !l->readers) { if (shared) l->readers++; else l->writer = me + 1; return; } block(o); }
}
bool try_acquire(const void *o, bool shared) {
  point();
  L *l = at(o); if (!l) return true;
  if (shared ? l->writer : l->writer || l->readers) return false;
  if (shared) l->readers++; else l->writer = me + 1;
  return true;
}
void release(const void *o) { L *l = at(o); if (!l) return; if (l->writer) l->writer = 0; else if (l->readers) l->readers--; wake(o); }
}  // namespace

extern "C" {
void sched_begin(int threads, const unsigned char *prefix, int n) {
  nthreads = threads; pre = prefix; npre = n; sched_len = sched_points = sched_deadlock = sched_diverged = 0; cur = -1; spins = 0;
  for (int i = 0; i < NT; i++) { st[i] = i < threads ? READY : DONE; waits[i] = nullptr; turn[i] = 0; }
  turn[NT] = 0; memset(locks, 0, sizeof locks); running = 1;
}
void sched_enter(int i) { me = i; fwait(&turn[i]); }
void sched_leave() {
  st[me] = DONE; int i = me; me = -1; (void)i;
  if (!running) return;
  int n = pick(false, false);
  if (n >= 0) { cur = n; spins = 0; fwake(&turn[n]); return; }
  for (int k = 0; k < nthreads; k++) if (st[k] != DONE) sched_deadlock = 1;
  running = 0;
  fwake(&turn[NT]);
}
void sched_step() { point(); }
void sched_wait() { int n = pick(false, false); cur = n; fwake(&turn[n]); fwait(&turn[NT]); }

#define REAL(r, f, a) r __real_##f a; r __wrap_##f a
REAL(int, pthread_mutex_lock, (pthread_mutex_t *m)) { if (on()) acquire(m, false); return __real_pthread_mutex_lock(m); }
REAL(int, pthread_mutex_trylock, (pthread_mutex_t *m)) { if (on() && !try_acquire(m, false)) return EBUSY; return __real_pthread_mutex_trylock(m); }
REAL(int, pthread_mutex_unlock, (pthread_mutex_t *m)) { int r = __real_pthread_mutex_unlock(m); if (on()) { release(m); point(); } return r; }
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t *m)) { if (on()) acquire(m, true); return __real_pthread_rwlock_rdlock(m); }
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t *m)) { if (on()) acquire(m, false); return __real_pthread_rwlock_wrlock(m); }
REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t *m)) { if (on() && !try_acquire(m, true)) return EBUSY; return __real_pthread_rwlock_tryrdlock(m); }
REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t *m)) { if (on() && !try_acquire(m, false)) return EBUSY; return __real_pthread_rwlock_trywrlock(m); }
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t *m)) { int r = __real_pthread_rwlock_unlock(m); if (on()) { release(m); point(); } return r; }
REAL(int, pthread_once, (pthread_once_t *o, void (*f)(void))) { if (!on()) return __real_pthread_once(o, f); acquire(o, false); int r = __real_pthread_once(o, f); release(o); point(); return r; }
REAL(int, __cxa_guard_acquire, (void *g)) {
  if (!on()) return __real___cxa_guard_acquire(g);
  acquire(g, false);
  int r = __real___cxa_guard_acquire(g);
  if (!r) release(g);
  return r;
}
REAL(void, __cxa_guard_release, (void *g)) { __real___cxa_guard_release(g); if (on()) { release(g); point(); } }
REAL(void, __cxa_guard_abort, (void *g)) { __real___cxa_guard_abort(g); if (on()) { release(g); point(); } }
REAL(int, sched_yield, (void)) { if (on()) { point(true); return 0; } return __real_sched_yield(); }
REAL(int, usleep, (useconds_t u)) { if (on()) { point(true); return 0; } return __real_usleep(u); }
REAL(int, nanosleep, (const timespec *a, timespec *b)) { if (on()) { point(true); return 0; } return __real_nanosleep(a, b); }
REAL(int, clock_nanosleep, (clockid_t c, int f, const timespec *a, timespec *b)) { if (on()) { point(true); return 0; } return __real_clock_nanosleep(c, f, a, b); }
// std::condition_variable: wait(unique_lock<mutex>&), notify_one(), notify_all()
REAL(void, _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE, (void *cv, void *lk)) {
  if (!on()) { __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(cv, lk); return; }
  pthread_mutex_t *m = *(pthread_mutex_t **)lk;
  __real_pthread_mutex_unlock(m); release(m); block(cv); acquire(m, false); __real_pthread_mutex_lock(m);
}
REAL(void, _ZNSt18condition_variable10notify_oneEv, (void *cv)) { if (!on()) { __real__ZNSt18condition_variable10notify_oneEv(cv); return; } wake(cv, 1); point(); }
REAL(void, _ZNSt18condition_variable10notify_allEv, (void *cv)) { if (!on()) { __real__ZNSt18condition_variable10notify_allEv(cv); return; } wake(cv); point(); }

#define ATOMIC_RMW(N, T, OP) REAL(T, __tsan_atomic##N##_##OP, (volatile T *a, T v, int mo)) { point(); return __real___tsan_atomic##N##_##OP(a, v, mo); }
#define ATOMICS(N, T)                                                                                                            \
  REAL(T, __tsan_atomic##N##_load, (const volatile T *a, int mo)) { point(); return __real___tsan_atomic##N##_load(a, mo); }      \
  REAL(void, __tsan_atomic##N##_store, (volatile T *a, T v, int mo)) { point(); __real___tsan_atomic##N##_store(a, v, mo); }      \
  ATOMIC_RMW(N, T, exchange) ATOMIC_RMW(N, T, fetch_add) ATOMIC_RMW(N, T, fetch_sub) ATOMIC_RMW(N, T, fetch_and)                  \
  ATOMIC_RMW(N, T, fetch_or) ATOMIC_RMW(N, T, fetch_xor) ATOMIC_RMW(N, T, fetch_nand)                                             \
  REAL(int, __tsan_atomic##N##_compare_exchange_strong, (volatile T *a, T *c, T v, int mo, int fmo)) { point(); return __real___tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); } \
  REAL(int, __tsan_atomic##N##_compare_exchange_weak, (volatile T *a, T *c, T v, int mo, int fmo)) { point(); return __real___tsan_atomic##N##_compare_exchange_weak(a, c, v, mo, fmo); }     \
  REAL(T, __tsan_atomic##N##_compare_exchange_val, (volatile T *a, T c, T v, int mo, int fmo)) { point(); return __real___tsan_atomic##N##_compare_exchange_val(a, c, v, mo, fmo); }
ATOMICS(8, int8_t)
ATOMICS(16, int16_t)
ATOMICS(32, int32_t)
ATOMICS(64, int64_t)
}
