// Containers that use limited allocators. Input: one sequence per line:
//   numContainers limit,limit op,args;...   (last argument: 1 = no memory from the system)
// Output: [[answer,[contents],...,[bytes of the vectors],[free bytes of the pools]],...]
#include <cstdlib>
#include <iostream>
#include <new>
#include <sstream>
#include <string>
#include <variant>
#include <vector>

#include "src/engine/IdTable.h"
#include "src/util/AllocatorWithLimit.h"

static bool failing = false;
void* operator new(size_t n) {
  void* p = failing && n >= 4 && n % 4 == 0 ? nullptr : std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }

using Vec = std::vector<int, ad_utility::AllocatorWithLimit<int>>;
using Tab = IdTable;
using H = std::variant<std::monostate, Vec, Tab>;

std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> r;
  std::istringstream in(s);
  for (std::string x; std::getline(in, x, c);) r.push_back(x);
  return r;
}

int main() {
  std::ios::sync_with_stdio(false);
  for (std::string line; std::getline(std::cin, line);) {
    std::istringstream in(line);
    size_t num;
    std::string lims, ops;
    in >> num >> lims >> ops;
    std::vector<decltype(ad_utility::makeAllocationMemoryLeftThreadsafeObject(1))> pools;
    for (auto& l : split(lims, ',')) pools.push_back(ad_utility::makeAllocationMemoryLeftThreadsafeObject(std::stoul(l)));
    std::vector<H> h(num);
    std::ostringstream out;
    out << "[";
    bool first = true;
    for (auto& step : split(ops, ';')) {
      auto a = split(step, ',');
      auto n = [&](size_t k) { return std::stoul(a[k]); };
      H& x = h[n(1) - 1];
      const auto& o = a[0];
      auto* v = std::get_if<Vec>(&x);
      auto* t = std::get_if<Tab>(&x);
      auto fill = [](Tab& t, size_t r, Id val) { for (size_t c = 0; c < 3; ++c) t(r, c) = val * 10 + c; };
      std::string r = "done";
      // Operations on a container that a failed operation did not create.
      bool other = o == "insert" || o == "copy" || o == "move" || o == "swap";
      bool skip = o != "new" && o != "copy" && o != "move" && x.index() == 0;
      if (other) {
        const H& g = h[n(2) - 1];
        skip = skip || g.index() == 0 || ((o == "insert" || o == "swap") && g.index() != x.index()) ||
               (o == "copy" && x.index() != 0 && g.index() != x.index()) || (o == "swap" && !v);
      }
      if (o == "shrink" && !v) skip = true;
      if (skip) r = "skip";
      failing = a.back() == "1";
      try {
        if (skip) {
        } else if (o == "new") {
          if (a[2] == "vec") x = Vec{ad_utility::AllocatorWithLimit<int>{pools[n(3) - 1]}};
          else x = Tab(3, ad_utility::AllocatorWithLimit<Id>{pools[n(3) - 1]});
        } else if (o == "drop") {
          x = std::monostate{};
        } else if (o == "push") {
          if (v) v->push_back(n(2));
          if (t) t->push_back({n(2) * 10, n(2) * 10 + 1, n(2) * 10 + 2});
        } else if (o == "clear") {
          if (v) v->clear();
          if (t) t->clear();
        } else if (o == "resize") {
          if (v) v->resize(n(2), n(3));
          if (t) {
            size_t old = t->size();
            t->resize(n(2));
            for (size_t k = old; k < n(2); ++k) fill(*t, k, n(3));
          }
        } else if (o == "reserve") {
          if (v) v->reserve(n(2));
          if (t) t->reserve(n(2));
        } else if (o == "shrink") {
          if (v) v->shrink_to_fit();
        } else if (o == "insert") {
          H& g = h[n(2) - 1];
          if (v) v->insert(v->end(), std::get<Vec>(g).begin(), std::get<Vec>(g).end());
          if (t) t->insert(t->end(), std::as_const(std::get<Tab>(g)).begin(), std::as_const(std::get<Tab>(g)).end());
        } else if (o == "copy") {
          x = h[n(2) - 1];
        } else if (o == "move") {
          x = std::move(h[n(2) - 1]);
          h[n(2) - 1] = std::monostate{};
        } else if (o == "swap") {
          std::swap(*v, std::get<Vec>(h[n(2) - 1]));
        } else {
          return 3;
        }
      } catch (const std::exception&) {
        r = "error";
      }
      failing = false;
      out << (first ? "" : ",") << "[\"" << r << "\"";
      first = false;
      for (auto& y : h) {
        out << ",[";
        if (auto* w = std::get_if<Vec>(&y))
          for (size_t k = 0; k < w->size(); ++k) out << (k ? "," : "") << (*w)[k];
        if (auto* w = std::get_if<Tab>(&y))
          for (size_t k = 0; k < w->size(); ++k) {
            long val = (*w)(k, 0) / 10;
            for (size_t c = 0; c < 3; ++c)
              if ((*w)(k, c) != val * 10 + c) val = -1;
            out << (k ? "," : "") << val;
          }
        out << "]";
      }
      out << ",[";
      for (size_t k = 0; k < num; ++k) {
        auto* w = std::get_if<Vec>(&h[k]);
        out << (k ? "," : "") << (w ? w->capacity() * 4 : 0);
      }
      out << "],[";
      for (size_t k = 0; k < pools.size(); ++k)
        out << (k ? "," : "") << ad_utility::AllocatorWithLimit<char>{pools[k]}.numFreeBytes();
      out << "]]";
    }
    h.clear();
    std::cout << out.str() << "]" << std::endl;
  }
}
