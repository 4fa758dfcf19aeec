// Pipelines under the scheduler. Scenario: config elements batch take
// (take: how many values the consumer asks for before it gives up; -1: all)
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>
#include <array>
#include <algorithm>
#include <iterator>

#include "explore.h"
#include "src/util/Log.h"
#include "src/util/Timer.h"
#include "src/util/BatchedPipeline.h"

using namespace explore;

// An element: moved-from ones are recognizable, and it can only be moved.
struct El {
  int id = -1;
  int stages = 0;
  El(int i, int s) : id(i), stages(s) {}
  El(El&& o) noexcept : id(o.id), stages(o.stages) { o.id = -1; }
  El& operator=(El&& o) noexcept {
    id = o.id;
    stages = o.stages;
    o.id = -1;
    return *this;
  }
};

auto creator(int n) {
  return [n, i = 0]() mutable -> std::optional<El> {
    sched::point();
    if (i >= n) return std::nullopt;
    ++i;
    event("new", i);
    return El(i, 0);
  };
}
// the s-th stage, worker w (0: any worker)
auto stage(int s, int w) {
  return [s, w](El&& e) {
    sched::point();
    event("app", s, w, e.id, e.stages);
    sched::point();
    return El(e.id, s);
  };
}

template <typename P>
void consume(P&& p, int take) {
  int got = 0;
  while (take < 0 || got < take) {
    auto v = p.getNextValue();
    if (!v) {
      event("end");
      // and it stays so
      if (p.getNextValue()) event("more");
      break;
    }
    event("get", v->id, v->stages);
    ++got;
  }
}

int main() {
  using namespace ad_pipeline;
  return mainLoop([](auto& id, auto& mode, long runs, uint64_t seed, std::istream& in) {
    std::string cfg;
    int n, take;
    size_t b;
    in >> cfg >> n >> b >> take;
    go(id, mode, runs, seed, [&] {
      auto s1 = stage(1, 0), s2 = stage(2, 0), s3 = stage(3, 0);
      auto t2 = [](int s) { return std::tuple(stage(s, 1), stage(s, 2)); };
      auto t3 = [](int s) { return std::tuple(stage(s, 1), stage(s, 2), stage(s, 3)); };
      if (cfg == "none") consume(setupPipeline(b, creator(n)), take);
      else if (cfg == "s") consume(setupPipeline(b, creator(n), s1), take);
      else if (cfg == "ss") consume(setupPipeline(b, creator(n), s1, s2), take);
      else if (cfg == "sss") consume(setupPipeline(b, creator(n), s1, s2, s3), take);
      else if (cfg == "p1") consume(setupParallelPipeline<1>(b, creator(n), s1), take);
      else if (cfg == "p2") consume(setupParallelPipeline<2>(b, creator(n), s1), take);
      else if (cfg == "p3") consume(setupParallelPipeline<3>(b, creator(n), s1), take);
      else if (cfg == "p21") consume(setupParallelPipeline<2, 1>(b, creator(n), s1, s2), take);
      else if (cfg == "p13") consume(setupParallelPipeline<1, 3>(b, creator(n), s1, s2), take);
      else if (cfg == "p232") consume(setupParallelPipeline<2, 3, 2>(b, creator(n), s1, s2, s3), take);
      else if (cfg == "t2") consume(setupParallelPipeline<2>(b, creator(n), t2(1)), take);
      else if (cfg == "t22") consume(setupParallelPipeline<2, 2>(b, creator(n), t2(1), t2(2)), take);
      else if (cfg == "t33") consume(setupParallelPipeline<3, 3>(b, creator(n), t3(1), t3(2)), take);
      else if (cfg == "t3p2t3") consume(setupParallelPipeline<3, 2, 3>(b, creator(n), t3(1), s2, t3(3)), take);
      else abort();
    });
  });
}
