// Replays operation sequences on arrays on disk and prints what they contain.
// Arguments: a directory for the files. Input: one sequence per line:
//   elementSize elementsPerElement numHandles numFiles op,args;op,args...
// Output: one line per sequence: [[answer,[elements],...,[file exists,...]],...]
// An element of the specification stands for elementsPerElement equal ones.
#include <sys/stat.h>
#include <unistd.h>

#include <array>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <variant>
#include <vector>

#include "src/util/MmapVector.h"
#include "src/util/BufferedVector.h"

using namespace ad_utility;

std::string dir;
std::string path(size_t f) { return dir + "/f" + std::to_string(f); }
bool exists(size_t f) {
  struct stat s;
  return ::stat(path(f).c_str(), &s) == 0;
}

template <size_t B>
struct E {
  unsigned char b[B];
  E() = default;
  E(long v) {
    for (size_t i = 0; i < B; i += B < 100 ? 1 : i < 10 || i + 80 > B ? 1 : 61) b[i] = v + 31 * i;
  }
  long value() const {
    for (size_t i = 0; i < B; i += B < 100 ? 1 : i < 10 || i + 80 > B ? 1 : 61)
      if (b[i] != static_cast<unsigned char>(b[0] + 31 * i)) return -1;
    return b[0];
  }
};

template <size_t B>
struct Run {
  using T = E<B>;
  using Rw = MmapVector<T>;
  using Ro = MmapVectorView<T>;
  using Tmp = MmapVectorTmp<T>;
  using Buf = BufferedVector<T>;
  template <typename X>
  using P = std::unique_ptr<X>;
  using H = std::variant<std::monostate, P<Rw>, P<Ro>, P<Tmp>, P<Buf>>;
  size_t U;
  std::vector<H> h;
  size_t files = 0;

  template <typename F>
  void on(H& x, F f) {
    if (auto* p = std::get_if<P<Rw>>(&x)) f(**p);
    else if (auto* p = std::get_if<P<Ro>>(&x)) f(**p);
    else if (auto* p = std::get_if<P<Tmp>>(&x)) f(**p);
    else if (auto* p = std::get_if<P<Buf>>(&x)) f(**p);
  }
  // f on an array that can be written
  template <typename F>
  void onW(H& x, F f) {
    on(x, [&](auto& y) {
      if constexpr (!std::is_same_v<std::decay_t<decltype(y)>, Ro>) f(y);
    });
  }
  // f on an array that can be resized
  template <typename F>
  void onM(H& x, F f) {
    onW(x, [&](auto& y) {
      if constexpr (!std::is_same_v<std::decay_t<decltype(y)>, Buf>) f(y);
    });
  }

  std::string show() {
    std::ostringstream o;
    for (auto& x : h) {
      o << ",[";
      on(x, [&](const auto& y) {
        size_t n = y.size();
        if (n % U || size_t(y.end() - y.begin()) != n || y.cend() - y.cbegin() != y.end() - y.begin()) o << -2 << (n ? "," : "");
        size_t k = 0;
        long last = 0;
        for (const auto& el : y) {
          long v = el.value();
          if (k % 17 == 0 && (y[k].value() != v || y.at(k).value() != v)) v = -3;
          if (k % U == 0) o << (k ? "," : "") << v;
          else if (v != last) o << "," << -4;
          last = v;
          ++k;
        }
      });
      o << "]";
    }
    o << ",[";
    for (size_t f = 1; f <= files; ++f) o << (f > 1 ? "," : "") << (exists(f) ? 1 : 0);
    o << "]";
    return o.str();
  }

  template <typename X, typename... A>
  void opened(H& x, bool again, A&&... a) {
    if (again && std::holds_alternative<P<X>>(x)) {
      std::get<P<X>>(x)->open(a...);
    } else {
      x = std::monostate{};
      x = std::make_unique<X>(a...);
    }
  }

  void junk(size_t f, const std::string& kind) {
    ::unlink(path(f).c_str());
    auto put = [&](const std::string& s) {
      std::ofstream o(path(f), std::ios::binary);
      o << s;
    };
    if (kind == "0") put("");
    else if (kind == "1") put("short");
    else if (kind == "2") put(std::string(300, 'x'));
    else {
      { Rw v(3 * U, T(9), path(f)); }
      std::ifstream i(path(f), std::ios::binary);
      std::stringstream ss;
      ss << i.rdbuf();
      std::string s = ss.str();
      if (kind == "3") s[s.size() - 8] ^= 1;
      else if (kind == "4") s[s.size() - 1] ^= 1;
      else s = s.substr(10);
      i.close();
      put(s);
    }
  }

  std::string step(const std::vector<std::string>& a) {
    auto n = [&](size_t k) { return std::stoul(a[k]); };
    const auto& o = a[0];
    std::string r = "done";
    if (o == "junk") {
      junk(n(1), a[2]);
      return r;
    }
    H& x = h[n(1) - 1];
    if (o == "create" || o == "range" || o == "reuse" || o == "view" || o == "tmp" || o == "buf") {
      auto p = path(n(2));
      try {
        if (o == "create" && a[3] == "0") opened<Rw>(x, a[5] == "1", p, CreateTag());
        else if (o == "create") opened<Rw>(x, a[5] == "1", n(3) * U, T(n(4)), p);
        else if (o == "range") {
          std::vector<T> v(n(3) * U, T(n(4)));
          opened<Rw>(x, a[5] == "1", v.begin(), v.end(), p);
        } else if (o == "reuse") opened<Rw>(x, a[3] == "1", p, ReuseTag());
        else if (o == "view") opened<Ro>(x, a[3] == "1", p);
        else if (o == "tmp") opened<Tmp>(x, a[3] == "1", p);
        else {
          x = std::monostate{};
          x = std::make_unique<Buf>(n(3) * U, p);
        }
      } catch (const std::exception&) {
        x = std::monostate{};
        r = "error";
      }
    } else if (o == "close") {
      onM(x, [](auto& y) { y.close(); });
      if (auto* p = std::get_if<P<Ro>>(&x)) (*p)->close();
    } else if (o == "drop") {
      x = std::monostate{};
    } else if (o == "move") {
      H& g = h[n(2) - 1];
      on(g, [&](auto& y) {
        using Y = std::decay_t<decltype(y)>;
        if constexpr (!std::is_same_v<Y, Buf>)
          if (a[3] == "1" && std::holds_alternative<P<Y>>(x)) {
            *std::get<P<Y>>(x) = std::move(y);
            return;
          }
        x = std::monostate{};
        x = std::make_unique<Y>(std::move(y));
      });
      g = std::monostate{};
    } else if (o == "append") {
      T e(n(3));
      onW(x, [&](auto& y) {
        for (size_t k = 0; k < n(2) * U; ++k)
          if (k % 2) y.push_back(e);
          else y.push_back(T(n(3)));
      });
    } else if (o == "own") {
      onW(x, [&](auto& y) { for (size_t u = 0; u < U; ++u) y.push_back(y[n(2) * U + u]); });
    } else if (o == "clear") {
      onW(x, [&](auto& y) { y.clear(); });
    } else if (o == "set") {
      onW(x, [&](auto& y) { for (size_t u = 0; u < U; ++u) y.at(n(2) * U + u) = T(n(3)); });
    } else if (o == "resize") {
      onM(x, [&](auto& y) {
        size_t old = y.size();
        y.resize(n(2) * U);
        for (size_t k = old; k < n(2) * U; ++k) y[k] = T(n(3));
      });
    } else if (o == "reserve") {
      onM(x, [&](auto& y) { y.reserve(n(2) * U); if (y.capacity() < n(2) * U) r = "too small"; });
    } else if (o == "at") {
      on(x, [&](auto& y) {
        try {
          r = std::to_string(y.at(n(2) * U).value());
        } catch (const std::out_of_range&) {
          r = "error";
        }
      });
    } else {
      _exit(3);
    }
    return r;
  }

  void run(size_t handles, size_t nf, const std::string& ops) {
    files = nf;
    h.resize(handles);
    for (size_t f = 1; f <= nf; ++f) ::unlink(path(f).c_str());
    std::istringstream os(ops);
    std::ostringstream out;
    out << "[";
    bool first = true;
    for (std::string o; std::getline(os, o, ';');) {
      std::vector<std::string> a;
      std::istringstream as(o);
      for (std::string y; std::getline(as, y, ',');) a.push_back(y);
      std::string r;
      try {
        r = step(a);
      } catch (const std::exception& e) {
        r = "exception";
      }
      out << (first ? "" : ",") << "[\"" << r << "\"" << show() << "]";
      first = false;
    }
    std::cout << out.str() << "]" << std::endl;
  }
};

int main(int, char** argv) {
  std::ios::sync_with_stdio(false);
  dir = argv[1];
  for (std::string line; std::getline(std::cin, line);) {
    std::istringstream in(line);
    size_t b, u, n, nf;
    std::string ops;
    in >> b >> u >> n >> nf >> ops;
    switch (b) {
#define B_(X) case X: { Run<X> r{u}; r.run(n, nf, ops); break; }
      B_(1) B_(4) B_(16) B_(24) B_(1000) B_(4096) B_(5000)
      default: return 3;
    }
  }
}
