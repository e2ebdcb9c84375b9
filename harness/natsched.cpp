// Native scheduler of h.h's threads: one runs at a time, and at every lock and every
// first initialisation of a function's static the choices in "sched" say which goes on.
// Built without sanitizers, so that handing over does not order the threads' accesses.
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <cstdio>
#include <cstring>
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_spin_lock(pthread_spinlock_t *); int __real_pthread_spin_unlock(pthread_spinlock_t *);
int __real___cxa_guard_acquire(long *); void __real___cxa_guard_release(long *); void __real___cxa_guard_abort(long *);
}
static struct { void (*f)(void *); void *arg; bool done; const void *waits; } t[8];
static int n = 0, turn = 0, active = 0, used = 0, total = 0; static unsigned choices[256];
static struct { const void *a; int by; } held[256]; static int nheld = 0;
static __thread int me = 0;
static int holder(const void *a) { for (int i = 0; i < nheld; i++) if (held[i].a == a) return held[i].by; return 0; }
static void hold(const void *a) { if (nheld < 256) { held[nheld].a = a; held[nheld++].by = me; } }
static void drop(const void *a) { for (int i = 0; i < nheld; i++) if (held[i].a == a) { held[i] = held[--nheld]; return; } }
static void die(const char *m) { if (write(2, m, strlen(m))) {} _exit(13); }
static void give(int to) { __atomic_store_n(&turn, to, __ATOMIC_SEQ_CST); }
static void waitTurn() { while (__atomic_load_n(&turn, __ATOMIC_SEQ_CST) != me) sched_yield(); }
static void reschedule() {
  int run[8], k = 0; bool all = true;
  for (int i = 1; i <= n; i++) { if (t[i].done) continue; all = false; if (!t[i].waits || !holder(t[i].waits)) run[k++] = i; }
  if (all) { give(0); return; }
  if (!k) die("CHECK-FAILED no thread can go on (deadlock)\n");
  int c = 0; if (k > 1) { c = used < total ? (int)(choices[used] % (unsigned)k) : 0; used++; }
  give(run[c]);
}
static void point(const void *a) { t[me].waits = a; reschedule(); waitTurn(); t[me].waits = nullptr; }
static const char none = 0;
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!active || !me) return __real_pthread_mutex_lock(m); if (holder(m) == me) die("CHECK-FAILED lock of a mutex that is already held\n"); point(m); hold(m); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!active || !me) return __real_pthread_mutex_trylock(m); point(&none); int r = __real_pthread_mutex_trylock(m); if (!r) hold(m); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (active && me) { if (holder(m) != me) die("CHECK-FAILED unlock of a mutex that is not held\n"); drop(m); } return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { if (!active || !me) return __real_pthread_spin_lock(m); if (holder((const void *)m) == me) die("CHECK-FAILED lock of a mutex that is already held\n"); point((const void *)m); hold((const void *)m); return __real_pthread_spin_lock(m); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { if (active && me) { if (holder((const void *)m) != me) die("CHECK-FAILED unlock of a mutex that is not held\n"); drop((const void *)m); } return __real_pthread_spin_unlock(m); }
int __wrap___cxa_guard_acquire(long *g) { if (!active || !me) return __real___cxa_guard_acquire(g); point(g); int r = __real___cxa_guard_acquire(g); if (r) hold(g); return r; }
void __wrap___cxa_guard_release(long *g) { if (active && me) drop(g); __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(long *g) { if (active && me) drop(g); __real___cxa_guard_abort(g); }
void ns_spawn(void (*f)(void *), void *a) { n++; t[n].f = f; t[n].arg = a; t[n].done = false; t[n].waits = nullptr; }
static void *body(void *p) { me = (int)(long)p; waitTurn(); t[me].f(t[me].arg); t[me].done = true; reschedule(); return nullptr; }
void ns_run(const unsigned *c, int k) {
  for (int i = 0; i < k && i < 256; i++) choices[i] = c[i]; total = k; used = 0; turn = -1; active = 1;
  pthread_t th[8]; for (int i = 1; i <= n; i++) pthread_create(&th[i], nullptr, body, (void *)(long)i);
  reschedule(); waitTurn();
  active = 0; for (int i = 1; i <= n; i++) pthread_join(th[i], nullptr);
  if (nheld) die("CHECK-FAILED a thread ended while holding a mutex\n");
  n = 0; nheld = 0;
}
}
