// ctlsched.h - a controlled scheduler for code that uses std::thread and std::mutex.
// The thread and mutex calls of the code under test are intercepted at the pthread level; exactly one thread runs at any
// time and at every scheduling point the explorer decides which one goes on. Preemptions (taking the processor from a
// thread that could go on) are bounded; what happens when a thread blocks, sleeps or ends is explored completely.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include "mc.h"
namespace sched {
struct Th { sem_t sem; bool done = false; void *waits_for = nullptr; int joins = -1; pthread_t id{}; void *(*fn)(void *) = nullptr; void *arg = nullptr; int naps = 0; };
struct S {
  mc::Ctx *cx = nullptr; std::vector<Th *> t; int cur = 0; int preemptions = 0, bound = 2, max_naps = 2; bool deadlock = false; std::map<void *, int> owner; uint64_t points = 0;
};
inline S *&now() { static S *s = nullptr; return s; }
inline thread_local int me = 0;
inline bool runnable(S &s, int i) { Th &t = *s.t[i]; return !t.done && !(t.waits_for && s.owner.count(t.waits_for)) && !(t.joins >= 0 && !s.t[t.joins]->done); }
inline void switch_to(S &s, int n) { if (n == s.cur) return; int old = s.cur; s.cur = n; sem_post(&s.t[n]->sem); if (!s.t[old]->done) while (sem_wait(&s.t[old]->sem)) {} }
// the running thread cannot go on (blocked, asleep or done): any other may
inline void give_up(S &s, const char *why, bool may_stay) {
  std::vector<int> r; for (int i = 0; i < (int)s.t.size(); ++i) if ((i != s.cur || may_stay) && runnable(s, i)) r.push_back(i);
  if (r.empty()) { if (may_stay || runnable(s, s.cur)) return; s.deadlock = true; fprintf(stderr, "deadlock: every thread waits (%s)\n", why); abort(); }
  switch_to(s, r[s.cx->choose(r.size(), why)]);
}
inline void point(const char *w) {
  S *s = now(); if (!s) return; ++s->points;
  if (!strcmp(w, "sleeping")) { // wakes up at any later time; naps without end are cut when somebody else could go on
    bool stay = ++s->t[s->cur]->naps <= s->max_naps; give_up(*s, w, stay); s->t[s->cur]->naps += 0; return;
  }
  if (s->preemptions >= s->bound) return;
  std::vector<int> r; for (int i = 0; i < (int)s->t.size(); ++i) if (i != s->cur && runnable(*s, i)) r.push_back(i);
  if (r.empty()) return;
  int c = s->cx->choose(1 + r.size(), w); if (c) { ++s->preemptions; switch_to(*s, r[c - 1]); }
}
template <typename F> F real(const char *n) { static std::map<std::string, void *> m; void *&p = m[n]; if (!p) p = dlsym(RTLD_NEXT, n); return (F)p; }
inline void *start(void *p) { Th *t = (Th *)p; while (sem_wait(&t->sem)) {} void *r = t->fn(t->arg); S &s = *now(); t->done = true; give_up(s, "a thread ended", false); return r; }
struct Session {
  S s;
  Session(mc::Ctx &cx, int bound) { s.cx = &cx; s.bound = bound; Th *m = new Th; sem_init(&m->sem, 0, 0); s.t.push_back(m); real<void *>("pthread_create"); real<void *>("pthread_join"); real<void *>("pthread_mutex_lock"); real<void *>("pthread_mutex_unlock"); now() = &s; }
  int alive() const { int n = 0; for (size_t i = 1; i < s.t.size(); ++i) n += !s.t[i]->done; return n; }
  ~Session() { now() = nullptr; } // semaphores are left to threads that may still wait on them
};
}
extern "C" {
int pthread_create(pthread_t *id, const pthread_attr_t *a, void *(*fn)(void *), void *arg) __THROWNL {
  auto r = sched::real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create"); auto *s = sched::now(); if (!s) return r(id, a, fn, arg);
  auto *t = new sched::Th; sem_init(&t->sem, 0, 0); t->fn = fn; t->arg = arg; int e = r(id, a, sched::start, t); if (e) return e; t->id = *id; s->t.push_back(t); sched::point("a thread was started"); return 0;
}
int pthread_join(pthread_t id, void **ret) {
  auto r = sched::real<int (*)(pthread_t, void **)>("pthread_join"); auto *s = sched::now();
  if (s) for (size_t i = 1; i < s->t.size(); ++i) if (pthread_equal(s->t[i]->id, id) && !s->t[i]->done) { s->t[s->cur]->joins = i; sched::give_up(*s, "joining", false); s->t[s->cur]->joins = -1; break; }
  return r(id, ret);
}
int pthread_mutex_lock(pthread_mutex_t *m) __THROWNL {
  auto *s = sched::now(); if (!s) return sched::real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock")(m);
  sched::point("locking");
  while (s->owner.count(m)) { s->t[s->cur]->waits_for = m; sched::give_up(*s, "waiting for a lock", false); s->t[s->cur]->waits_for = nullptr; }
  s->owner[m] = s->cur; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) __THROWNL {
  auto *s = sched::now(); if (!s) return sched::real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock")(m);
  sched::point("trying to lock"); if (s->owner.count(m)) return 16; s->owner[m] = s->cur; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) __THROWNL {
  auto *s = sched::now(); if (!s) return sched::real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock")(m);
  s->owner.erase(m); sched::point("unlocked"); return 0;
}
}
#endif
