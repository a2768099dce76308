// Native threads that run one at a time, following the recorded scheduling choices (see engine/builtins.hpp, schedule()).
// Compiled without sanitizers; in the TSAN build, only the modelled mutexes order accesses.
#define VF_BATON
#include "vfthread.h"
#include "vf.h"
#include <sched.h>
#include <cstdio>
#include <unistd.h>
#ifndef VF_SPURIOUS
#define VF_SPURIOUS 0
#endif
#ifndef VF_PREEMPT
#define VF_PREEMPT -1
#endif
extern "C" { void __tsan_acquire(void*) __attribute__((weak)); void __tsan_release(void*) __attribute__((weak)); uint32_t vf_next_input(uint32_t lo, uint32_t hi); }
enum St { RUN, BLOCK, WAIT, JOIN, DONE };
struct Th { St st = RUN; const void* on = nullptr; bool woken = false; pthread_t h; void (*f)(void*); void* a; };
template <class T, unsigned N> struct Vec { T d[N]; unsigned n = 0; void push_back(T x) { if (n >= N) _exit(12); d[n++] = x; } unsigned size() const { return n; } bool empty() const { return !n; } T& operator[](unsigned i) { return d[i]; } T* begin() { return d; } T* end() { return d + n; } }; // no heap: the harness counts it
static Th pool[8]; static Vec<Th*, 8> th; static uint32_t cur, preempt, spurious; static volatile uint32_t turn; struct Own { const void* m; int t; }; static Vec<Own, 64> own; static int* ownerOf(const void* m) { for (auto& o : own) if (o.m == m) return &o.t; return nullptr; } static void setOwner(const void* m, int t) { for (auto& o : own) if (!o.m) { o.m = m; o.t = t; return; } own.push_back({m, t}); } static void noOwner(const void* m) { for (auto& o : own) if (o.m == m) o.m = nullptr; } static thread_local uint32_t self;
static void bad(const char* k, const char* m) { fflush(stdout); fprintf(stderr, "VF-VIOLATION %s: %s\n", k, m); fflush(stderr); _exit(10); }
static void waitTurn(uint32_t me) { while (__atomic_load_n(&turn, __ATOMIC_RELAXED) != me) sched_yield(); }
static void schedule(bool voluntary, bool leave = false) {
  uint32_t me = cur; Vec<uint32_t, 16> r; if (th[me]->st == RUN) r.push_back(me);
  for (uint32_t i = 0; i < th.size(); i++) if (i != me && th[i]->st == RUN) r.push_back(i);
  if (r.empty()) bad("deadlock", "all remaining threads are blocked (deadlock or lost wakeup)");
  if (voluntary && VF_PREEMPT >= 0 && (int)preempt >= VF_PREEMPT) return;
  if (spurious < VF_SPURIOUS) for (uint32_t i = 0; i < th.size(); i++) if (th[i]->st == WAIT) r.push_back(i);
  uint32_t j = vf_choice(r.size()), n = r[j]; if (voluntary && n != me) preempt++;
  if (th[n]->st == WAIT) { th[n]->st = RUN; th[n]->woken = true; spurious++; }
  cur = n; if (n == me) return; __sync_synchronize(); __atomic_store_n(&turn, n, __ATOMIC_RELAXED); if (!leave) waitTurn(me); __sync_synchronize(); }
static void acq(void* p) { if (__tsan_acquire) __tsan_acquire(p); }
static void rel(void* p) { if (__tsan_release) __tsan_release(p); }
static void unlock(void* m) { int* o = ownerOf(m); if (!o || *o != (int)cur) bad("bad-unlock", "a mutex is unlocked by a thread that does not hold it"); noOwner(m); rel(m); for (auto t : th) if (t->st == BLOCK && t->on == m) t->st = RUN; }
static void lockLoop(void* m) { while (int* o = ownerOf(m)) { if (*o == (int)cur) bad("deadlock", "a thread locks a mutex it already holds"); th[cur]->st = BLOCK; th[cur]->on = m; schedule(false); } setOwner(m, cur); acq(m); }
extern "C" {
void vf_threads_begin(void) { Th* t = &pool[th.size()]; th.push_back(t); turn = cur = 0; }
void vf_yield(void) { if (th.size() < 2) return; schedule(true); }
static void* entry(void* a) { Th* t = (Th*)a; uint32_t me = 0; while (th[me] != t) me++; self = me; waitTurn(me); __sync_synchronize(); t->f(t->a); t->st = DONE; for (auto o : th) if (o->st == JOIN && o->on == t) o->st = RUN; schedule(false, true); return nullptr; }
uint32_t vf_thread(void (*f)(void*), void* a) { Th* t = &pool[th.size()]; t->f = f; t->a = a; th.push_back(t); if (pthread_create(&t->h, nullptr, entry, t)) _exit(12); return th.size() - 1; }
void vf_join(uint32_t id) { Th* o = th[id]; while (o->st != DONE) { th[cur]->st = JOIN; th[cur]->on = o; schedule(false); } pthread_join(o->h, nullptr); }
int vfp_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) { return 0; }
int vfp_mutex_destroy(pthread_mutex_t* m) { if (ownerOf(m)) bad("bad-destroy", "a locked mutex is destroyed"); return 0; }
int vfp_mutex_lock(pthread_mutex_t* m) { vf_yield(); lockLoop(m); return 0; }
int vfp_mutex_trylock(pthread_mutex_t* m) { vf_yield(); if (ownerOf(m)) return 16; setOwner(m, cur); acq(m); return 0; }
int vfp_mutex_unlock(pthread_mutex_t* m) { unlock(m); return 0; }
int vfp_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int vfp_cond_destroy(pthread_cond_t* c) { for (auto t : th) if (t->st == WAIT && t->on == c) bad("bad-destroy", "a condition variable with waiters is destroyed"); return 0; }
int vfp_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { unlock(m); uint32_t me = cur; th[me]->st = WAIT; th[me]->on = c; th[me]->woken = false; schedule(false); while (ownerOf(m)) { th[me]->st = BLOCK; th[me]->on = m; schedule(false); } th[me]->woken = false; setOwner(m, me); acq(m); return 0; }
int vfp_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return vfp_cond_wait(c, m); }
int vfp_cond_signal(pthread_cond_t* c) { vf_yield(); Vec<Th*, 8> w; for (auto t : th) if (t->st == WAIT && t->on == c) w.push_back(t); if (w.empty()) return 0; Th* t = w[vf_choice(w.size())]; t->st = RUN; t->woken = true; return 0; }
int vfp_cond_broadcast(pthread_cond_t* c) { vf_yield(); for (auto t : th) if (t->st == WAIT && t->on == c) { t->st = RUN; t->woken = true; } return 0; }
}
