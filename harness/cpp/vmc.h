// Depth-first exploration of all choice sequences (re-executing prefixes), for drivers written in C++.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace vmc {
struct Ex {
  std::vector<std::pair<int, int>> s;  // chosen, of
  size_t pos = 0;
  bool cut = false;
  int pick(int n) {
    if (pos == s.size()) s.push_back({0, n});
    return s[pos++].first;
  }
  bool next() {
    s.resize(pos);  // what was not asked for in this run is not part of it
    while (!s.empty() && s.back().first + 1 >= s.back().second) s.pop_back();
    if (s.empty()) return false;
    s.back().first++;
    return true;
  }
};
inline std::map<std::string, long long>& stats() { static std::map<std::string, long long> m; return m; }
inline std::set<std::string>& viols() { static std::set<std::string> m; return m; }
inline void stat(const char* k, long long v) { stats()[k] += v; }
inline void sample(const std::string& s) {
  static int n = 0;
  if (n++ < 12) printf("SAMPLE %s\n", s.c_str());
}
inline void viol(const std::string& key, std::string text) {
  if (viols().size() > 30 || !viols().insert(key).second) return;
  std::string t;
  for (char c : text) { if (c == '\n') t += "\\n"; else t += c; }
  printf("VIOL %s\t%s\n", key.c_str(), t.c_str());
  fflush(stdout);
}
template <typename F> long long explore(F f) {
  Ex x;
  long long n = 0;
  do {
    x.pos = 0;
    f(x);
    n++;
  } while (x.next());
  return n;
}
inline int done() {
  for (auto& [k, v] : stats()) printf("STAT %s=%lld\n", k.c_str(), v);
  printf("DONE\n");
  fflush(stdout);
  return 0;
}
inline bool thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
}  // namespace vmc
