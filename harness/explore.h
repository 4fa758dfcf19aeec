// What the scheduled harnesses share: recording histories, going through
// schedules, reporting. Input lines: <id> <mode> <runs> <seed> <scenario...>
#pragma once
#include <signal.h>
#include <string.h>
#include <unistd.h>

#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "sched.h"

namespace explore {
inline std::map<std::string, long> seen;
inline std::string current;

inline void ev(const std::string& s) { sched::record(s.c_str()); }
template <typename... A>
void event(const char* name, A... a) {
  std::string s = std::string("[\"") + name + "\"";
  auto add = [&s](const auto& x) {
    s += ',';
    if constexpr (std::is_convertible_v<decltype(x), std::string>)
      s += '"' + std::string(x) + '"';
    else
      s += std::to_string(x);
  };
  (add(a), ...);
  ev(s + "]");
}

inline void flushAll(long runs, long steps) {
  for (auto& [h, n] : seen) std::cout << "H " << current << " " << n << " [" << h << "]\n";
  std::cout << "R " << current << " " << runs << " " << steps << std::endl;
  seen.clear();
}
// (also from a signal handler, so without allocating)
inline void broken(const char* what) {
  auto put = [](const char* p, size_t n) { [[maybe_unused]] auto r = ::write(1, p, n); };
  put("B ", 2);
  put(current.data(), current.size());
  put(" ", 1);
  put(what, strlen(what));
  put(" [", 2);
  put(sched::currentHistory().data(), sched::currentHistory().size());
  put("]\n", 2);
  _exit(9);
}
inline void onSignal(int sig) { broken(sig == SIGABRT ? "abort" : "crash"); }

// scenario: the rest of the line; body runs it once.
template <typename Body>
void go(const std::string& id, const std::string& mode, long runs, uint64_t seed, Body body) {
  current = id;
  sched::restart();
  sched::Outcome o;
  long done = 0, steps = 0;
  for (long i = 0; i < runs; ++i) {
    sched::Policy p;
    p.seed = seed * 1000003 + i;
    if (mode[0] == 'd') {
      p.kind = sched::Policy::DFS;
      p.bound = mode[1] - '0';
      p.level = mode.size() > 2 ? mode[2] - '0' : 1;
    } else {
      p.pSpurious = i % 4 == 3 ? 100 : 0;
      if (i % 3 == 0) {
        p.kind = sched::Policy::RANDOM;
        static const int mem[] = {0, 1, 20, 200};
        p.pMem = mem[(i / 3) % 4];
        p.pAtomic = (i / 12) % 2 ? 20 : 200;
        p.pSync = (i / 24) % 2 ? 100 : 500;
      } else {
        p.kind = sched::Policy::PCT;
        p.depth = 1 + (i / 3) % 4;
      }
    }
    if (!sched::run(p, body, &o, broken)) break;
    ++done;
    steps += o.steps;
    ++seen[sched::takeHistory()];
  }
  flushAll(done, steps);
}

inline std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> r;
  std::istringstream in(s);
  for (std::string x; std::getline(in, x, c);) r.push_back(x);
  return r;
}

template <typename F>
int mainLoop(F f) {
  for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, onSignal);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string id, mode, rest;
    long runs;
    uint64_t seed;
    in >> id >> mode >> runs >> seed;
    std::getline(in, rest);
    std::istringstream r(rest);
    f(id, mode, runs, seed, r);
  }
  return 0;
}
}  // namespace explore
