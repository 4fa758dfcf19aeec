// Replays operation sequences on the real LRU cache and prints what it shows.
// Input: one sequence per line: numKeys entries total single op,args;op,args...
// Output: one line per sequence: result and view per operation.
#include <chrono>
#include <iostream>
#include <numeric>
#include <sstream>
#include <string>
#include <vector>

#include "src/util/Cache.h"

struct V {
  long id = 0;
  size_t sz = 0;
  size_t size() const { return sz; }
};
using C = ad_utility::LRUCache<std::string, V>;

// (erase is not part of what the other classes use, so it may be missing)
template <typename T>
concept Erases = requires(T& c, const std::string& k) { c.erase(k); };
template <typename T>
void eraseKey([[maybe_unused]] T& c, [[maybe_unused]] const std::string& k) {
  if constexpr (Erases<T>) c.erase(k);
}

int main(int argc, char**) {
  if (argc > 1) {
    std::cout << (Erases<C> ? "erase" : "") << std::endl;
    return 0;
  }
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    size_t keys, n, total, single;
    std::string ops;
    in >> keys >> n >> total >> single >> ops;
    C c(n, total, single);
    std::vector<std::pair<std::shared_ptr<const V>, long>> held;
    std::istringstream os(ops);
    std::string o;
    std::ostringstream out;
    auto show = [&](const std::shared_ptr<const V>& p) {
      if (!p) return std::string("none");
      held.emplace_back(p, p->id);
      return std::to_string(p->id);
    };
    while (std::getline(os, o, ';')) {
      std::vector<std::string> a;
      std::istringstream as(o);
      for (std::string x; std::getline(as, x, ',');) a.push_back(x);
      std::string r = "done";
      try {
        if (a[0] == "get") r = show(c["key " + a[1]]);
        else if (a[0] == "ins") r = show(c.insert("key " + a[1], V{std::stol(a[2]), std::stoul(a[3])}));
        else if (a[0] == "pinned") r = show(c.insertPinned("key " + a[1], V{std::stol(a[2]), std::stoul(a[3])}));
        else if (a[0] == "pin") r = c.containsAndMakePinnedIfExists("key " + a[1]) ? "yes" : "no";
        else if (a[0] == "erase") eraseKey(c, "key " + a[1]);
        else if (a[0] == "clear") c.clearUnpinnedOnly();
        else if (a[0] == "clearall") c.clearAll();
        else if (a[0] == "limit") c.setMaxNumEntries(std::stoul(a[1]));
        else return 3;
      } catch (const std::exception&) {
        r = "error";
      }
      out << r << ' ' << c.numNonPinnedEntries() << ' ' << c.numPinnedEntries() << ' ' << c.nonPinnedSize() << ' '
          << c.pinnedSize();
      for (size_t k = 1; k <= keys; ++k) out << ' ' << (c.contains("key " + std::to_string(k)) ? 1 : 0);
      out << ';';
    }
    // what was handed out stays what it was
    for (auto& [p, id] : held)
      if (p->id != id) out << "CHANGED";
    std::cout << out.str() << std::endl;
  }
}
