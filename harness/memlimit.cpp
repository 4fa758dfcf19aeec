// Threads that allocate through limited allocators, under the scheduler.
// Scenario: limit program|program|...
#include <cstdlib>
#include <limits>
#include <memory>
#include <new>
#include <thread>

#include "explore.h"
#include "src/util/AllocatorWithLimit.h"

using namespace explore;

// What is really in use: blocks taken from the system inside allocate().
static thread_local bool counting = false, failing = false;
static thread_local size_t expected = 0;
static struct {
  void* p;
  size_t n;
} blocks[256];
static size_t inUse = 0, limitNow = 0;
static bool over = false;

#define PLAIN __attribute__((no_sanitize("thread")))
PLAIN void* operator new(size_t n) {
  bool count = counting && n == expected && !sched::ownWork();
  if (count && failing) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (count) {
    inUse += n;
    if (inUse > limitNow) over = true;
    for (auto& b : blocks)
      if (!b.p) {
        b.p = p;
        b.n = n;
        break;
      }
  }
  return p;
}
PLAIN void operator delete(void* p) noexcept {
  if (p && !sched::ownWork())
    for (auto& b : blocks)
      if (b.p == p) {
        inUse -= b.n;
        b.p = nullptr;
        break;
      }
  std::free(p);
}
PLAIN void operator delete(void* p, size_t) noexcept { operator delete(p); }

struct Count {
  Count(size_t n, bool fail) { counting = true, failing = fail, expected = n; }
  ~Count() { counting = failing = false; }
};

struct S {
  char c[24];
};
template <typename T>
using A = ad_utility::AllocatorWithLimit<T>;

struct Op {
  std::string name;
  char kind = 'c';
  size_t n = 0;
};

template <typename T>
void* take(A<T> a, int t, const Op& o) {
  size_t n = o.n;
  if (o.name == "huge") n = std::numeric_limits<size_t>::max() / sizeof(T) + (sizeof(T) == 1 ? -o.n : o.n);
  if (o.name == "alloc") event("inv", t, "alloc", n * sizeof(T));
  else event("inv", t, "fail", o.name == "fail" ? n * sizeof(T) : 0);
  T* p = nullptr;
  bool ok = true;
  try {
    Count c(n * sizeof(T), o.name == "fail");
    p = a.allocate(n);
  } catch (const std::exception&) {
    ok = false;
  }
  if (ok) {
    if (o.name == "alloc") memset(static_cast<void*>(p), t, n * sizeof(T));
    event("ret", t, 0);
  } else {
    event("err", t);
  }
  return ok ? p : reinterpret_cast<void*>(-1);
}
template <typename T>
void give(A<T> a, void* p, size_t n) {
  a.deallocate(static_cast<T*>(p), n);
}

using Memory = decltype(ad_utility::makeAllocationMemoryLeftThreadsafeObject(1));

void runThread(const Memory& mem, int t, const std::vector<Op>& ops) {
  // own allocators, or copies of one
  A<char> ac{mem};
  A<int> ai{mem};
  A<S> as{mem};
  struct B {
    void* p;
    char kind;
    size_t n;
  };
  std::vector<B> mine;
  for (auto& o : ops) {
    if (o.name == "alloc" || o.name == "fail" || o.name == "huge") {
      void* p = o.kind == 'c' ? take(ac, t, o) : o.kind == 'i' ? take(ai, t, o) : take(as, t, o);
      if (p != reinterpret_cast<void*>(-1)) mine.push_back({p, o.kind, o.n});
    } else if (o.name == "free") {
      if (mine.empty()) continue;
      auto b = mine[o.n % mine.size()];
      mine.erase(mine.begin() + o.n % mine.size());
      event("inv", t, "free", b.n * (b.kind == 'c' ? 1 : b.kind == 'i' ? sizeof(int) : sizeof(S)));
      if (b.kind == 'c') give(ac, b.p, b.n);
      else if (b.kind == 'i') give(ai, b.p, b.n);
      else give(as, b.p, b.n);
      event("ret", t, 0);
    } else {
      event("inv", t, "left", 0);
      size_t f = o.n % 2 ? ac.numFreeBytes() : as.numFreeBytes();
      event("ret", t, f);
    }
  }
}

int main() {
  return mainLoop([](auto& id, auto& mode, long runs, uint64_t seed, std::istream& in) {
    std::string progs;
    in >> limitNow >> progs;
    std::vector<std::vector<Op>> prog;
    for (auto& p : split(progs, '|')) {
      prog.emplace_back();
      for (auto& x : split(p, ';')) {
        auto a = split(x, ',');
        Op o{a[0]};
        if (a.size() > 1) o.kind = a[1][0];
        if (a.size() > 2) o.n = std::stoul(a[2]);
        prog.back().push_back(o);
      }
    }
    go(id, mode, runs, seed, [&] {
      for (auto& b : blocks)
        if (b.p) {
          std::free(b.p);
          b.p = nullptr;
        }
      inUse = 0;
      over = false;
      auto mem = ad_utility::makeAllocationMemoryLeftThreadsafeObject(limitNow);
      std::vector<std::thread> th;
      for (size_t t = 0; t < prog.size(); ++t) th.emplace_back([&, t] { runThread(mem, t + 1, prog[t]); });
      for (auto& t : th) t.join();
      if (over) event("over");
      event("end", A<char>{mem}.numFreeBytes());
    });
  });
}
