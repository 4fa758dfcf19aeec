// Threads that use the concurrent cache, under the scheduler.
// Scenario: keys entries total single program|program|...
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <thread>

#include "explore.h"
#include "src/util/Cache.h"
#include "src/util/Exception.h"
#include "src/util/Log.h"
#include "src/util/ConcurrentCache.h"

using namespace explore;

struct V {
  long id = 0;
  size_t sz = 0;
  size_t size() const { return sz; }
};
using C = ad_utility::ConcurrentCache<ad_utility::LRUCache<int, V>>;

struct Op {
  std::string name;
  int k = 0;
  long v = 0;
  size_t s = 0;
  bool fail = false;
};

void runThread(C& c, int t, const std::vector<Op>& ops) {
  for (auto& o : ops) {
    event("inv", t, o.name.c_str(), o.k);
    if (o.name == "once" || o.name == "pin") {
      auto compute = [t, &o]() {
        event("start", t);
        sched::point();
        if (o.fail) {
          event("fail", t);
          throw std::runtime_error("computation failed");
        }
        event("done", t, o.v, o.s);
        return V{o.v, o.s};
      };
      try {
        auto r = o.name == "once" ? c.computeOnce(o.k, compute) : c.computeOncePinned(o.k, compute);
        if (!r._resultPointer)
          event("ret", t, 0, 0);
        else
          event("ret", t, r._resultPointer->id, r._wasCached ? 1 : 0);
      } catch (const std::exception&) {
        event("exc", t);
      }
    } else if (o.name == "clear") {
      c.clearUnpinnedOnly();
      event("ret", t, 0, 0);
    } else if (o.name == "clearall") {
      c.clearAll();
      event("ret", t, 0, 0);
    } else if (o.name == "has") {
      bool b = c.cacheContains(o.k);
      event("ret", t, b ? 1 : 0, 0);
    } else if (o.name == "at") {
      auto p = c.resultAt(o.k);
      event("ret", t, p ? p->id : 0, 0);
    }
  }
}

int main() {
  return mainLoop([](auto& id, auto& mode, long runs, uint64_t seed, std::istream& in) {
    size_t keys, n, total, single;
    std::string progs;
    in >> keys >> n >> total >> single >> progs;
    std::vector<std::vector<Op>> prog;
    for (auto& p : split(progs, '|')) {
      prog.emplace_back();
      for (auto& x : split(p, ';')) {
        auto a = split(x, ',');
        Op o{a[0]};
        if (a.size() > 1) o.k = std::stoi(a[1]);
        if (a.size() > 2) o.s = std::stoul(a[2]);
        if (a.size() > 3) o.fail = a[3] == "1";
        o.v = prog.size() * 100 + prog.back().size() + 1;
        prog.back().push_back(o);
      }
    }
    go(id, mode, runs, seed, [&] {
      auto c = std::make_unique<C>(n, total, single);
      std::vector<std::thread> th;
      for (size_t t = 0; t < prog.size(); ++t) th.emplace_back([&, t] { runThread(*c, t + 1, prog[t]); });
      for (auto& t : th) t.join();
      std::string s = "[\"end\"," + std::to_string(c->numNonPinnedEntries()) + "," + std::to_string(c->numPinnedEntries()) +
                      "," + std::to_string(c->nonPinnedSize()) + "," + std::to_string(c->pinnedSize());
      for (size_t k = 1; k <= keys; ++k) s += c->cacheContains(k) ? ",1" : ",0";
      ev(s + "]");
    });
  });
}
