// Depth-first exploration of the choices an execution asks for (stateless, by re-execution).
#pragma once
#include "mc.h"
namespace mc {
struct Choice {
  std::vector<int> path; std::vector<int> width; size_t pos = 0; size_t bound = 0; uint64_t asked = 0; bool active = false;
  // next choice out of n; after the bound every choice is the default
  int pick(int n, int deflt) { ++asked; if (!active) return deflt; if (pos >= bound) { ++pos; return deflt; } if (pos == path.size()) { path.push_back(0); width.push_back(n); } width[pos] = n; int c = path[pos++]; return c < n ? c : n - 1; }
  bool next() { if (path.size() > pos) { path.resize(pos); width.resize(pos); } while (!path.empty() && ++path.back() >= width.back()) { path.pop_back(); width.pop_back(); } return !path.empty(); }
};
inline Choice& choice() { static Choice c; return c; }
}
