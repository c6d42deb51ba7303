// C09: a propagator denominator follows the last mass and width set, after every history.
#include "mc.h"
#include "spinas.h"
using namespace mc; using namespace spinas;

static const ldouble MV[] = {0, 1, 80.5L, 0.015625L, 1000003, 80.377L, 1e-5L, 1/3.L};
static const ldouble WV[] = {0, 2, 2.125L, 0.0078125L, 4096, 2.085L, 1e-7L, 173.1L};
struct P4 { ldouble p[4]; };
static const std::vector<P4>& mom() {
  static std::vector<P4> v;
  if (v.empty()) {
    for (int e : {0, 3, -3, 5, -7}) for (int x : {0, 1, -4}) for (int y : {0, 2, -1}) for (int z : {0, 2, -5}) v.push_back({{(ldouble)e, (ldouble)x, (ldouble)y, (ldouble)z}});
    for (ldouble s : {(ldouble)(1 << 20), (ldouble)1 / (1 << 20)}) for (int e : {0, 3, -7}) for (int x : {0, -4}) for (int y : {2, -1}) for (int z : {0, 2, -5}) v.push_back({{s * e, s * x, s * y, s * z}});
    for (ldouble s : {1/3.L, 0.1L, 1e12L/7, 1e-12L/7}) for (int e : {0, 3, -7}) for (int x : {0, -4}) for (int y : {2, -1}) for (int z : {0, 2, -5}) v.push_back({{s * e, s * x, s * y, s * z}});
    v.push_back({{80.5L, 0, 0, 0}}); v.push_back({{161, 0, 0, -80.5L}}); v.push_back({{1, 0, 0, 0}}); v.push_back({{0.015625L, 0, 0, 0}}); v.push_back({{1000003, 0, 0, 0}});
  }
  return v;
}
struct Obj { propagator P; ldouble m = 0, w = 0; };
static bool eval(Obj& o, const P4& q, const std::string& key, const std::string& hist) {
  ldouble p[4] = {q.p[0], q.p[1], q.p[2], q.p[3]};
  cdouble d = o.P.denominator(p); st().transitions++;
  ldouble re = p[0] * p[0] - p[1] * p[1] - p[2] * p[2] - p[3] * p[3] - o.m * o.m, im = -o.m * o.w;
  ldouble sc = p[0] * p[0] + p[1] * p[1] + p[2] * p[2] + p[3] * p[3] + o.m * o.m;
  outcome(mix(hnum(d.real()), hnum(d.imag())));
  if (!(std::abs(d.real() - re) <= 1e-17L*EPSF * sc) || !(std::abs(d.imag() - im) <= 1e-17L*EPSF * std::abs(im))) { fail(key, hist + ": denominator({" + fmts(p[0]) + "," + fmts(p[1]) + "," + fmts(p[2]) + "," + fmts(p[3]) + "}) = " + fmt(d) + ", expected " + fmt(cdouble(re, im))); return false; }
  if (p[0] != q.p[0] || p[1] != q.p[1] || p[2] != q.p[2] || p[3] != q.p[3]) { fail(key, hist + ": the momentum was changed"); return false; }
  return true;
}
// operations 0-4 set_mass, 5-9 set_width, 10 copy construct, 11 assign from the other, 12.. evaluate, 15 construct again
static const int NOP = 17;
static const char* nm(int o) { static std::string s; if (o < 5) s = "set_mass(" + fmts(MV[o]) + ")"; else if (o < 10) s = "set_width(" + fmts(WV[o - 5]) + ")"; else s = (const char*[]){"copy", "assign to other", "swap roles", "evaluate 1", "evaluate 2", "construct(80.5,2.125)", "construct()"}[o - 10]; return s.c_str(); }
static void history(int start, const std::vector<int>& h) {
  std::string key = "hist:" + std::to_string(start) + ":" + join(h); at(key); st().states++; st().traces++;
  Obj a, b; if (start) { int i = (start - 1) / 5, j = (start - 1) % 5; a.P = propagator(MV[i], WV[j]); a.m = MV[i]; a.w = WV[j]; b.P = propagator(MV[j], WV[i]); b.m = MV[j]; b.w = WV[i]; }
  std::string hist = "start " + std::to_string(start);
  for (int o : h) {
    if (opt().replaying) hist += std::string("; ") + nm(o); st().transitions++;
    if (o < 5) { a.P.set_mass(MV[o]); a.m = MV[o]; } else if (o < 10) { a.P.set_width(WV[o - 5]); a.w = WV[o - 5]; }
    else switch (o) {
      case 10: { propagator c(a.P); a.P = c; break; } case 11: b.P = a.P; b.m = a.m; b.w = a.w; break; case 12: std::swap(a, b); break;
      case 13: if (!eval(a, mom()[40], key, hist)) return; break; case 14: if (!eval(b, mom()[101], key, hist)) return; break;
      case 15: a.P = propagator(80.5L, 2.125L); a.m = 80.5L; a.w = 2.125L; break; case 16: a.P = propagator(); a.m = a.w = 0; break; }
  }
  static const int some[] = {0, 5, 40, 77, 100, 134}; for (int i : some) if (!eval(a, mom()[i], key, hist) || !eval(b, mom()[i], key, hist) || !eval(a, mom()[i], key, hist)) return;
}
static void values(int i, int j, int how) {   // every momentum for every mass and width, set in three ways
  std::string key = "val:" + join({i, j, how}); at(key); st().states++; st().traces++;
  Obj a; a.m = MV[i]; a.w = WV[j];
  if (how == 0) a.P = propagator(MV[i], WV[j]); else if (how == 1) { a.P.set_mass(MV[i]); a.P.set_width(WV[j]); } else { a.P = propagator(7, 9); a.P.set_width(WV[j]); a.P.set_mass(MV[i]); }
  for (int rep = 0; rep < 2; rep++) for (auto& q : mom()) if (!eval(a, q, key, "mass " + fmts(MV[i]) + " width " + fmts(WV[j]))) return;
}
// one object used many times
static void pump(int n) { std::string key = "pump:" + std::to_string(n); at(key); st().states++; st().traces++; Obj a; for (int i = 0; i < n; i++) { int k = i % 5, l = (i / 5) % 5; if (i % 3 == 0) { a.P.set_mass(MV[k]); a.m = MV[k]; } if (i % 7 == 0) { a.P.set_width(WV[l]); a.w = WV[l]; } if (!eval(a, mom()[i % mom().size()], key, "use " + std::to_string(i))) return; } }
static void run_case(const std::string& k) { auto f = split(k, ':'); if (f[0] == "val") { auto v = ints(f[1]); values(v[0], v[1], v[2]); } else if (f[0] == "pump") pump(atoi(f[1].c_str())); else history(atoi(f[1].c_str()), ints(f[2])); }
int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      int D = opt().thorough ? 6 : 4;
      shards(64, [&](int sh) {
        int c = 0; for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) for (int h = 0; h < 3; h++) if (c++ % 64 == sh) values(i, j, h);
        if (sh == 0) pump(100000);
        for (int st0 : {0, 1, 7, 14, 20, 25}) for (int d = 0; d <= D; d++) { long tot = 1; for (int i = 0; i < d; i++) tot *= NOP; for (long q = sh; q < tot && !enough(); q += 64) { std::vector<int> s; long r = q; for (int i = 0; i < d; i++) { s.push_back(r % NOP); r /= NOP; } history(st0, s); } }
        if (sh == 0) for (auto s : {std::vector<int>{1, 7, 11, 2, 14}, {0, 5, 10, 16, 3}, {12, 4, 8, 13, 15}}) { std::string t; for (int o : s) t += std::string(nm(o)) + "; "; sample(t); }
      });
    },
    run_case,
    [] { return std::map<std::string, std::string>{{"histories", std::string("all of length <= ") + (opt().thorough ? "6" : "4") + " over 17 operations on two propagators, 6 starts"}, {"values", "8 masses x 8 widths x 3 ways to set x " + std::to_string(mom().size()) + " momenta"}}; });
}
