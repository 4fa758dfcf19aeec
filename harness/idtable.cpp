// Replays edit sequences on real result tables and prints what they contain.
// Input: one sequence per line: width rowsPerRow numTables op,args;op,args...
// Output: one line per sequence: [[answer,[rows],[rows]...],...]
// A row of the specification stands for rowsPerRow equal rows of the table.
#include <algorithm>
#include <iostream>
#include <optional>
#include <sstream>
#include <string>
#include <variant>
#include <vector>

#include "src/engine/IdTable.h"

using ad_utility::AllocatorWithLimit;
AllocatorWithLimit<Id> alloc() {
  static AllocatorWithLimit<Id> a{ad_utility::makeAllocationMemoryLeftThreadsafeObject(1ul << 40)};
  return a;
}

Id cell(long v, size_t col) { return v * 1000 + 7 * col; }

template <int W>
struct Run {
  using Dyn = IdTable;
  using Fix = IdTableStatic<W>;
  using T = std::variant<std::monostate, Dyn, Fix>;
  size_t U;
  std::vector<T> t;

  template <typename F>
  void on(T& x, F f) {
    if (auto* d = std::get_if<Dyn>(&x)) f(*d);
    else if (auto* s = std::get_if<Fix>(&x)) f(*s);
    else throw std::logic_error("no table");
  }
  template <typename X>
  static long value(const X& x, size_t r) {
    long v = x(r, 0) / 1000;
    for (size_t c = 0; c < W; ++c)
      if (x(r, c) != cell(v, c)) return -1;
    return v;
  }
  template <typename X>
  void fill(X& x, size_t r, long v) {
    for (size_t c = 0; c < W; ++c) x(r, c) = cell(v, c);
  }
  template <typename X, size_t... I>
  void pushList(X& x, long v, std::index_sequence<I...>) {
    x.push_back({cell(v, I)...});
  }

  std::string show() {
    std::ostringstream o;
    for (auto& x : t) {
      o << ",[";
      if (!std::holds_alternative<std::monostate>(x)) on(x, [&](const auto& y) {
        size_t n = y.size();
        if (n % U || y.rows() != n || y.cols() != W || size_t(y.end() - y.begin()) != n) o << -2 << (n ? "," : "");
        size_t k = 0;
        for (auto it = y.begin(); it != y.end(); ++it, ++k) {
          long v = value(y, k);
          // every way of reading shows the same row
          const auto& row = *it;
          const auto& row2 = y[k];
          for (size_t c = 0; c < W; ++c)
            if (row[c] != y(k, c) || row2[c] != y(k, c)) v = -3;
          if (k % U == 0) o << (k ? "," : "") << v;
          else if (v != value(y, k - 1)) o << "," << -4;
        }
      });
      o << "]";
    }
    return o.str();
  }

  std::string step(const std::vector<std::string>& a) {
    auto n = [&](size_t k) { return std::stoul(a[k]); };
    T& x = t[n(1) - 1];
    const auto& o = a[0];
    std::string r = "done";
    if (o == "new") {
      if (a[2] == "dyn") x = Dyn(W, alloc());
      else x = Fix(alloc());
    } else if (o == "copy") {
      T& y = t[n(2) - 1];
      x = y;
    } else if (o == "move") {
      T& y = t[n(2) - 1];
      x = std::move(y);
      y = std::monostate{};
    } else if (o == "fix") {
      x = std::move(std::get<Dyn>(x)).template moveToStatic<W>();
    } else if (o == "dyn") {
      x = std::move(std::get<Fix>(x)).moveToDynamic();
    } else {
      on(x, [&](auto& y) {
        using Y = std::decay_t<decltype(y)>;
        if (o == "push") {
          long v = n(2);
          for (size_t u = 0; u < U; ++u) {
            if (a[3] == "0") {
              pushList(y, v, std::make_index_sequence<W>());
            } else if (a[3] == "1") {
              y.push_back();
              fill(y, y.size() - 1, v);
            } else {
              Y z = [&] { if constexpr (std::is_same_v<Y, Dyn>) return Y(W, alloc()); else return Y(alloc()); }();
              z.push_back();
              z.push_back();
              fill(z, 0, 999);
              fill(z, 1, v);
              if (u % 2) y.push_back(z, 1);
              else y.push_back(z[1]);
            }
          }
        } else if (o == "own") {
          for (size_t u = 0; u < U; ++u) {
            if (u % 2 == 0) y.push_back(y, n(2) * U + u);
            else y.push_back(y[n(2) * U + u]);
          }
        } else if (o == "pop") {
          for (size_t u = 0; u < U; ++u) y.pop_back();
        } else if (o == "ins") {
          const Y& z = std::get<Y>(t[n(3) - 1]);
          y.insert(y.begin() + n(2) * U, z.begin() + n(4) * U, z.begin() + n(5) * U);
        } else if (o == "era1") {
          for (size_t u = 0; u < U; ++u) y.erase(y.begin() + n(2) * U);
        } else if (o == "era") {
          y.erase(y.begin() + n(2) * U, y.begin() + n(3) * U);
        } else if (o == "clear") {
          y.clear();
        } else if (o == "reserve") {
          y.reserve(n(2) * U);
        } else if (o == "resize") {
          size_t old = y.size();
          y.resize(n(2) * U);
          for (size_t k = old; k < y.size(); ++k) fill(y, k, n(3));
        } else if (o == "set") {
          for (size_t u = 0; u < U; ++u) fill(y, n(2) * U + u, n(3));
        } else if (o == "swap") {
          for (size_t u = 0; u < U; ++u) {
            auto i1 = y.begin() + (n(2) * U + u), i2 = y.begin() + (n(3) * U + u);
            std::iter_swap(i1, i2);
          }
        } else if (o == "sort") {
          std::sort(y.begin(), y.end(), [](const auto& p, const auto& q) { return p[0] < q[0]; });
        } else if (o == "clone") {
          y = Y(y.template asStaticView<std::is_same_v<Y, Dyn> ? 0 : W>().clone());
        } else if (o == "eq") {
          r = y == std::get<Y>(t[n(2) - 1]) ? "yes" : "no";
        } else {
          throw std::logic_error("unknown " + o);
        }
      });
    }
    return r;
  }

  void run(size_t tables, const std::string& ops, bool graph) {
    for (size_t k = 0; k < tables; ++k) {
      if (graph && k == 1) t.emplace_back(Fix(alloc()));
      else t.emplace_back(Dyn(W, alloc()));
    }
    std::istringstream os(ops);
    std::ostringstream out;
    out << "[";
    bool first = true;
    for (std::string o; std::getline(os, o, ';');) {
      std::vector<std::string> a;
      std::istringstream as(o);
      for (std::string y; std::getline(as, y, ',');) a.push_back(y);
      std::string r;
      try {
        r = step(a);
      } catch (const std::logic_error&) {
        throw;
      } catch (const std::exception&) {
        r = "error";
      }
      out << (first ? "" : ",") << "[\"" << r << "\"" << show() << "]";
      first = false;
    }
    std::cout << out.str() << "]" << std::endl;
  }
};

int main(int argc, char**) {
  std::ios::sync_with_stdio(false);
  for (std::string line; std::getline(std::cin, line);) {
    std::istringstream in(line);
    size_t w, u, n;
    std::string ops;
    in >> w >> u >> n >> ops;
    bool graph = argc > 1;
    switch (w) {
#define W_(X) case X: { Run<X> r{u}; r.run(n, ops, graph); break; }
      W_(1) W_(2) W_(3) W_(4) W_(5) W_(6) W_(7) W_(12)
      default: return 3;
    }
  }
}
