// Alphabets of on-shell momenta that are exact in binary arithmetic.
#pragma once
#include "types.h"
#include <array>
#include <string>
#include <vector>

struct Mom {
  ldouble p[4]; ldouble m; std::string name;
};

// integer directions (nx,ny,nz) with integer length n
struct Dir { int x, y, z, n; };

inline std::vector<Dir> base_dirs(int level) {
  std::vector<Dir> b = {{0, 0, 1, 1}, {3, 4, 0, 5}, {0, 5, 12, 13}, {8, 0, 15, 17}, {1, 2, 2, 3}, {2, 3, 6, 7}};
  if (level >= 1) { std::vector<Dir> c = {{1, 4, 8, 9}, {4, 4, 7, 9}, {2, 6, 9, 11}, {6, 6, 7, 11}, {3, 4, 12, 13}, {2, 5, 14, 15}};
    b.insert(b.end(), c.begin(), c.end()); }
  if (level >= 2) { std::vector<Dir> c = {{1, 12, 12, 17}, {8, 9, 12, 17}, {1, 6, 18, 19}, {6, 6, 17, 19}, {6, 10, 15, 19}, {4, 8, 19, 21}, {1, 0, 0, 1}, {4, 13, 16, 21}, {3, 14, 18, 23}, {20, 0, 21, 29}, {12, 0, 35, 37}, {99, 20, 0, 101}, {0, 1, 0, 1}};
    b.insert(b.end(), c.begin(), c.end()); }
  return b;
}
// all distinct permutations and signs
inline std::vector<Dir> all_dirs(int level) {
  std::vector<Dir> r;
  auto have = [&](const Dir& d) { for (auto& e : r) if (e.x * d.n == d.x * e.n && e.y * d.n == d.y * e.n && e.z * d.n == d.z * e.n) return true; return false; };
  int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto& d : base_dirs(level)) {
    int v[3] = {d.x, d.y, d.z};
    for (auto& pm : perm) for (int s = 0; s < 8; s++) {
      Dir e{v[pm[0]] * ((s & 1) ? -1 : 1), v[pm[1]] * ((s & 2) ? -1 : 1), v[pm[2]] * ((s & 4) ? -1 : 1), d.n};
      if (!have(e)) r.push_back(e);
    }
  }
  return r;
}
// (p, m, E) with p^2+m^2=E^2 exactly
struct Shell { ldouble p, m, E; const char* name; };
inline std::vector<Shell> shells(int level) {
  std::vector<Shell> r = {{1, 0, 1, "massless"}, {3, 4, 5, "345"}, {15, 8, 17, "fast"}, {8, 15, 17, "slow"},
    {1048575, 2048, 1048577, "ultra"}, {2048, 1048575, 1048577, "creep"}};
  if (level >= 1) { std::vector<Shell> c = {{4, 3, 5, "435"}, {12, 5, 13, "12-5-13"}, {99, 20, 101, "99-20-101"}, {20, 99, 101, "20-99-101"}, {255, 32, 257, "255-32-257"}};
    r.insert(r.end(), c.begin(), c.end()); }
  if (level >= 2) { std::vector<Shell> c = {{21, 20, 29, "21-20-29"}, {5, 12, 13, "5-12-13"}, {35, 12, 37, "35-12-37"}, {9999, 200, 10001, "9999"}, {16383, 256, 16385, "16383"}, {256, 16383, 16385, "256"}, {67108863, 16384, 67108865, "ultra2"}};
    r.insert(r.end(), c.begin(), c.end()); }
  return r;
}
inline Mom make_mom(const Dir& d, const Shell& s, int scale2) {
  Mom r; ldouble k = std::ldexp((ldouble)1, scale2);
  r.p[0] = s.E * d.n * k; r.p[1] = s.p * d.x * k; r.p[2] = s.p * d.y * k; r.p[3] = s.p * d.z * k; r.m = s.m * d.n * k;
  r.name = std::string(s.name) + "(" + std::to_string(d.x) + "," + std::to_string(d.y) + "," + std::to_string(d.z) + ")*2^" + std::to_string(scale2);
  return r;
}
inline Mom rest_mom(ldouble m) { Mom r; r.p[0] = m; r.p[1] = r.p[2] = r.p[3] = 0; r.m = m; char b[40]; snprintf(b, 40, "rest(%.6Lg)", (long double)m); r.name = b; return r; }
