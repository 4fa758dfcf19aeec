// See sched.h. Not compiled with the instrumentation.
#include "sched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <map>
#include <random>

namespace {

template <typename F>
F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(ret, name, ...)                   \
  using name##_t = ret (*)(__VA_ARGS__);       \
  static name##_t f = real<name##_t>(#name);

long rawFutex(int* a, int op, int v) {
  long r;
  register long r10 asm("r10") = 0;
  register long r8 asm("r8") = 0;
  register long r9 asm("r9") = 0;
  asm volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

enum State { RUNNABLE, BLOCKED, DONE };
struct Th {
  int id;
  std::atomic<int> go{0};
  State st = RUNNABLE;
  const void* obj = nullptr;  // what it is blocked on
  int kind = 0;               // of obj: 1 mutex, 2 cond, 3 futex, 4 join, 5 sleep
  bool timed = false, timedOut = false;
  long prio = 0;
  pthread_t handle{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  bool sleeping = false;
};

std::vector<Th*> threads;
thread_local Th* self = nullptr;
// The linker may take a function template's instrumented instance also here, so
// the scheduler's own work is marked: no scheduling points in there.
thread_local int inside = 0;
struct Inside {
  Inside() { ++inside; }
  ~Inside() { --inside; }
};
bool active = false;
sched::Policy pol;
sched::Outcome* outcome;
const std::function<void(const char*)>* onDeadlock;
std::mt19937_64 rng;
long steps = 0, sinceSwitch = 0, atomics = 0, lastSteps = 2000;
std::vector<long> changePoints;
long lowPrio = 0;
int preemptions = 0;

struct Choice {
  int pick, n;
};
std::vector<Choice> path;
size_t pos = 0;
bool exhausted = false;

void waitGo(Th* t) {
  while (t->go.load() == 0) rawFutex(reinterpret_cast<int*>(&t->go), FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
  t->go.store(0);
}
void letGo(Th* t) {
  t->go.store(1);
  rawFutex(reinterpret_cast<int*>(&t->go), FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}

int dfsPick(int n) {
  if (pos < path.size()) {
    if (path[pos].n != n) path[pos].n = std::min(path[pos].n, n);
    int p = std::min(path[pos].pick, n - 1);
    ++pos;
    return p;
  }
  path.push_back({0, n});
  ++pos;
  return 0;
}

// Chooses the next thread. level: 0 forced (the current one cannot go on or
// wants to yield), 1 synchronisation, 2 atomic operation, 3 memory access.
Th* choose(int level, bool mustLeave) {
  Inside in;
  std::vector<Th*> can;
  Th* cur = self;
  bool curOk = cur && cur->st == RUNNABLE && !mustLeave;
  if (curOk) can.push_back(cur);
  for (auto* t : threads)
    if (t->st == RUNNABLE && t != cur && !t->sleeping) can.push_back(t);
  if (can.empty())
    for (auto* t : threads)
      if (t->st == RUNNABLE && t->sleeping && t != cur) can.push_back(t);
  if (can.empty() && cur && cur->st == RUNNABLE) can.push_back(cur);
  if (can.empty()) {
    // only those that wait with a time limit can go on
    for (auto* t : threads)
      if (t->st == BLOCKED && t->timed) {
        t->st = RUNNABLE;
        t->timedOut = true;
        can.push_back(t);
        break;
      }
  }
  if (can.empty()) return nullptr;
  if (can.size() == 1) return can[0];
  switch (pol.kind) {
    case sched::Policy::DFS: {
      if (level > pol.level) return curOk ? cur : can[0];
      int n = can.size();
      if (curOk && preemptions >= pol.bound) n = 1;
      int p = n == 1 ? 0 : dfsPick(n);
      if (curOk && p > 0) ++preemptions;
      return can[p];
    }
    case sched::Policy::RANDOM: {
      int pm = level == 1 ? pol.pSync : level == 2 ? pol.pAtomic : pol.pMem;
      if (curOk && int(rng() % 1000) >= pm) return cur;
      return can[rng() % can.size()];
    }
    case sched::Policy::PCT: {
      Th* best = can[0];
      for (auto* t : can)
        if (t->prio > best->prio) best = t;
      return best;
    }
  }
  return can[0];
}

void dead(const char* what) {
  (*onDeadlock)(what);
  _exit(9);
}

void switchTo(Th* next) {
  if (next == self) return;
  sinceSwitch = atomics = 0;
  next->sleeping = false;
  Th* me = self;
  letGo(next);
  if (me->st != DONE) waitGo(me);
}

// The current thread cannot go on (its state says so).
void block() {
  Th* n = choose(0, true);
  if (!n) dead("deadlock");
  switchTo(n);
}

void yieldPoint(int level) {
  if (!self || !active || inside) return;
  ++steps;
  ++sinceSwitch;
  if (level == 2) ++atomics;
  if (steps > 3000000) dead("livelock");
  if (pol.kind == sched::Policy::PCT) {
    Inside in;
    for (auto& c : changePoints)
      if (c == steps) self->prio = --lowPrio;
  } else if (level > pol.level && pol.kind == sched::Policy::DFS && sinceSwitch < 20000 && atomics < 60) {
    return;
  } else if (level == 3 && pol.kind == sched::Policy::RANDOM && pol.pMem == 0 && sinceSwitch < 20000) {
    return;
  }
  bool leave = false;
  if (sinceSwitch > 20000 || atomics > 60) {
    sinceSwitch = atomics = 0;
    // it may be waiting for something in a loop
    leave = true;
    if (pol.kind == sched::Policy::PCT) self->prio = --lowPrio;
  }
  Th* n = choose(level, leave);
  if (n) switchTo(n);
}

void wakeAll(const void* obj, int kind) {
  Inside in;
  for (auto* t : threads)
    if (t->st == BLOCKED && t->obj == obj && t->kind == kind) t->st = RUNNABLE;
}

bool wakeOne(const void* obj, int kind) {
  Inside in;
  std::vector<Th*> w;
  for (auto* t : threads)
    if (t->st == BLOCKED && t->obj == obj && t->kind == kind) w.push_back(t);
  if (w.empty()) return false;
  size_t i = pol.kind == sched::Policy::DFS ? 0 : rng() % w.size();
  w[i]->st = RUNNABLE;
  return true;
}

// Returns false when the time limit came first.
bool waitOn(const void* obj, int kind, bool timed) {
  self->obj = obj;
  self->kind = kind;
  self->timed = timed;
  self->timedOut = false;
  self->st = BLOCKED;
  block();
  bool r = !self->timedOut;
  self->timed = self->timedOut = false;
  self->obj = nullptr;
  return r;
}

bool managed() { return active && self && !inside; }


void* entry(void* p) {
  Th* t = static_cast<Th*>(p);
  self = t;
  waitGo(t);
  void* r = t->fn(t->arg);
  t->st = DONE;
  wakeAll(t, 4);
  Th* n = choose(0, true);
  self = nullptr;
  if (!n) {
    for (auto* x : threads)
      if (x->st != DONE) dead("deadlock");
  } else {
    n->sleeping = false;
    sinceSwitch = 0;
    letGo(n);
  }
  return r;
}

template <typename Try>
int lockLoop(const void* obj, Try tryIt, bool timed = false) {
  yieldPoint(1);
  while (true) {
    int r = tryIt();
    if (r != EBUSY) return r;
    if (!waitOn(obj, 1, timed)) return ETIMEDOUT;
  }
}
}  // namespace

extern "C" {

int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
  if (!managed()) return f(h, a, fn, arg);
  ++inside;
  Th* t = new Th;
  t->id = threads.size();
  t->fn = fn;
  t->arg = arg;
  t->prio = 1000 + rng() % 1000000;
  threads.push_back(t);
  int r = f(h, a, entry, t);
  if (r) {
    t->st = DONE;
    --inside;
    return r;
  }
  t->handle = *h;
  --inside;
  yieldPoint(1);
  return 0;
}

int pthread_join(pthread_t h, void** ret) {
  REAL(int, pthread_join, pthread_t, void**)
  if (managed()) {
    yieldPoint(1);
    // (a handle may be used again after a join)
    Th* t = nullptr;
    for (auto* x : threads)
      if (x->id > 0 && pthread_equal(x->handle, h)) t = x;
    while (t && t->st != DONE) waitOn(t, 4, false);
  }
  return f(h, ret);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_lock, pthread_mutex_t*)
  if (!managed()) return f(m);
  using try_t = int (*)(pthread_mutex_t*);
  static try_t tr = real<try_t>("pthread_mutex_trylock");
  return lockLoop(m, [&] { return tr(m); });
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
  if (managed()) yieldPoint(1);
  return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
  int r = f(m);
  if (managed()) {
    wakeAll(m, 1);
    yieldPoint(1);
  }
  return r;
}

int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
  if (!managed()) return f(m);
  using try_t = int (*)(pthread_rwlock_t*);
  static try_t tr = real<try_t>("pthread_rwlock_trywrlock");
  return lockLoop(m, [&] { return tr(m); });
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
  if (!managed()) return f(m);
  using try_t = int (*)(pthread_rwlock_t*);
  static try_t tr = real<try_t>("pthread_rwlock_tryrdlock");
  return lockLoop(m, [&] { return tr(m); });
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
  int r = f(m);
  if (managed()) {
    wakeAll(m, 1);
    yieldPoint(1);
  }
  return r;
}

static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  using un_t = int (*)(pthread_mutex_t*);
  static un_t un = real<un_t>("pthread_mutex_unlock");
  un(m);
  wakeAll(m, 1);
  bool ok = true;
  if (pol.pSpurious && int(rng() % 1000) < pol.pSpurious)
    yieldPoint(1);
  else
    ok = waitOn(c, 2, timed);
  pthread_mutex_lock(m);
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
  return managed() ? condWait(c, m, false) : f(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*)
  return managed() ? condWait(c, m, true) : f(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)
  return managed() ? condWait(c, m, true) : f(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t* c) {
  REAL(int, pthread_cond_signal, pthread_cond_t*)
  if (!managed()) return f(c);
  yieldPoint(1);
  wakeOne(c, 2);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  REAL(int, pthread_cond_broadcast, pthread_cond_t*)
  if (!managed()) return f(c);
  yieldPoint(1);
  wakeAll(c, 2);
  return 0;
}

int pthread_once(pthread_once_t* o, void (*init)(void)) {
  REAL(int, pthread_once, pthread_once_t*, void (*)(void))
  if (!managed()) return f(o, init);
  // 0: not yet, 2: done (as in glibc), 0x7000: running under this scheduler
  auto* v = reinterpret_cast<volatile int*>(o);
  yieldPoint(1);
  while (*v == 0x7000) waitOn((const void*)o, 1, false);
  if (*v == 2) return 0;
  *v = 0x7000;
  try {
    init();
  } catch (...) {
    *v = 0;
    wakeAll((const void*)o, 1);
    throw;
  }
  *v = 2;
  wakeAll((const void*)o, 1);
  return 0;
}

int sem_wait(sem_t* s) {
  REAL(int, sem_wait, sem_t*)
  if (!managed()) return f(s);
  return lockLoop(s, [&] { return sem_trywait(s) == 0 ? 0 : EBUSY; });
}
int sem_post(sem_t* s) {
  REAL(int, sem_post, sem_t*)
  int r = f(s);
  if (managed()) {
    wakeAll(s, 1);
    yieldPoint(1);
  }
  return r;
}

static void snooze() {
  self->sleeping = true;
  Th* n = choose(0, true);
  if (n && n != self) switchTo(n);
  self->sleeping = false;
}
int sched_yield() {
  REAL(int, sched_yield, void)
  if (!managed()) return f();
  snooze();
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  REAL(int, nanosleep, const struct timespec*, struct timespec*)
  if (!managed()) return f(a, b);
  snooze();
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
  REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*)
  if (!managed()) return f(c, fl, a, b);
  snooze();
  return 0;
}

long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && managed()) {
    int* addr = reinterpret_cast<int*>(a[0]);
    int op = a[1] & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      yieldPoint(1);
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != int(a[2])) {
        errno = EAGAIN;
        return -1;
      }
      if (!waitOn(addr, 3, a[3] != 0)) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      long k = 0;
      while (k < a[2] && wakeOne(addr, 3)) ++k;
      yieldPoint(1);
      return k;
    }
  }
  using sys_t = long (*)(long, ...);
  static sys_t f = real<sys_t>("syscall");
  return f(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// --- what the compiler calls at every access -------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define ACC(n)                                   \
  void __tsan_read##n(void*) { yieldPoint(3); }  \
  void __tsan_write##n(void*) { yieldPoint(3); } \
  void __tsan_unaligned_read##n(void*) { yieldPoint(3); } \
  void __tsan_unaligned_write##n(void*) { yieldPoint(3); } \
  void __tsan_volatile_read##n(void*) { yieldPoint(3); } \
  void __tsan_volatile_write##n(void*) { yieldPoint(3); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void*, unsigned long) { yieldPoint(3); }
void __tsan_write_range(void*, unsigned long) { yieldPoint(3); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define SC __ATOMIC_SEQ_CST
#define ATOMICS(bits, T)                                                                                   \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { yieldPoint(2); return __atomic_load_n(a, SC); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { yieldPoint(2); __atomic_store_n(a, v, SC); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { yieldPoint(2); return __atomic_exchange_n(a, v, SC); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { yieldPoint(2); return __atomic_fetch_add(a, v, SC); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { yieldPoint(2); return __atomic_fetch_sub(a, v, SC); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { yieldPoint(2); return __atomic_fetch_and(a, v, SC); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { yieldPoint(2); return __atomic_fetch_or(a, v, SC); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { yieldPoint(2); return __atomic_fetch_xor(a, v, SC); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { yieldPoint(2); return __atomic_fetch_nand(a, v, SC); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { yieldPoint(2); return __atomic_compare_exchange_n(a, c, v, false, SC, SC); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { yieldPoint(2); return __atomic_compare_exchange_n(a, c, v, false, SC, SC); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { yieldPoint(2); __atomic_compare_exchange_n(a, &c, v, false, SC, SC); return c; }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned) ATOMICS(64, unsigned long)
}

namespace {
std::string history;
}
namespace sched {
bool ownWork() { return inside > 0; }
void record(const char* e) {
  Inside in;
  if (!history.empty()) history += ',';
  history += e;
}
const std::string& currentHistory() { return history; }
std::string takeHistory() { return std::move(history); }
void point() { yieldPoint(1); }
void restart() {
  path.clear();
  exhausted = false;
}

bool run(const Policy& p, const std::function<void()>& body, Outcome* out,
         const std::function<void(const char*)>& od) {
  if (p.kind == Policy::DFS && exhausted) return false;
  pol = p;
  outcome = out;
  onDeadlock = &od;
  history.clear();
  rng.seed(p.seed);
  steps = sinceSwitch = atomics = 0;
  preemptions = 0;
  pos = 0;
  lowPrio = 0;
  changePoints.clear();
  for (int i = 0; i < p.depth; ++i) changePoints.push_back(1 + rng() % lastSteps);
  for (auto* t : threads) delete t;
  threads.clear();
  Th* me = new Th;
  me->id = 0;
  me->prio = 1000 + rng() % 1000000;
  threads.push_back(me);
  self = me;
  active = true;
  body();
  // those that nobody waits for
  for (size_t i = 1; i < threads.size(); ++i) {
    Th* t = threads[i];
    while (t->st != DONE) waitOn(t, 4, false);
  }
  active = false;
  self = nullptr;
  lastSteps = std::max(10L, steps);
  out->steps = steps;
  if (p.kind == Policy::DFS) {
    path.resize(std::min(path.size(), pos));
    while (!path.empty() && path.back().pick + 1 >= path.back().n) path.pop_back();
    if (path.empty())
      exhausted = true;
    else
      ++path.back().pick;
  }
  return true;
}
}  // namespace sched
