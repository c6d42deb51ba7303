// C22: a copy of a process is a process of its own.
// All histories of an original and a copy up to a depth on every class; newly built processes are the oracle.
#include <array>
#include "smk.h"
using namespace mc; using namespace sm;

static const int NPOINT = 2;
struct World {
  const Info* I;
  Par set[2];
  Kin kin[2][NPOINT];
  std::map<std::array<int,2>,std::vector<cdouble>> fresh;
};
static std::vector<cdouble> ask(const Info& I, Proc* x) {
  std::vector<cdouble> r;
  std::vector<std::vector<int>> sp(4, std::vector<int>{0});
  for (int i : I.labelled) {
    const std::string& l = I.legs[i];
    sp[i] = l == "A" || l == "g" ? std::vector<int>{-2,2} : l == "Z" || l[0] == 'W' ? std::vector<int>{-2,0,2} : std::vector<int>{-1,1};
  }
  for (size_t k=0;k<I.amps.size();k++) for (int a0 : sp[0]) for (int a1 : sp[1]) for (int a2 : sp[2]) for (int a3 : sp[3]) {
    int d[4] = {a0,a1,a2,a3};
    r.push_back(x->amp(k,d));
  }
  for (size_t k=0;k<I.pols.size();k++) r.push_back(x->pol(k));
  r.push_back(x->amp2());
  return r;
}
static World& world(const Info& I) {
  static World w;
  if (w.I == &I) return w;
  w = World(); w.I = &I;
  for (int s=0;s<2;s++) {
    Par& a = w.set[s]; a = Par();
    for (int i=0;i<NPAR;i++) { auto v = alphabet(i,0); a[i] = is_mass(i) ? v[s] : v[0]; }
    a[WW] = 2.0625L; a[WZ] = 2.5L; a[WH] = 0.5L;
    if (!s) for (int i=ME;i<=MB;i++) a[i] = 3.5L + 0.7L*i;
    feyn::Model m = model(a,I); feyn::Process P; P.build(m,I.legs);
    ld ms[4]; leg_masses(P,m,ms);
    w.kin[s][0] = sm::kin(ms, energy(ms,2,60), 0.3L, beams()[1][0], beams()[1][1]);
    w.kin[s][1] = sm::kin(ms, energy(ms,0,45), -0.7L, beams()[0][0], beams()[0][1]);
  }
  return w;
}
static const std::vector<cdouble>& fresh(World& w, int s, int p) {
  std::array<int,2> k = {s,p};
  auto it = w.fresh.find(k);
  if (it != w.fresh.end()) return it->second;
  Proc* x = w.I->make(*w.I,w.set[s]); x->set_momenta(w.kin[s][p].q);
  auto a = ask(*w.I,x); delete x;
  return w.fresh[k] = a;
}

// operations on the original 0-3, on the copy 4-7, copying 8, assigning 9, assigning back 10, destroying the copy 11
static const char* OP[] = {"a.set_momenta(0)","a.set_momenta(1)","a.set_masses(other), a.set_momenta(0)","ask a",
                           "b.set_momenta(0)","b.set_momenta(1)","b.set_masses(other), b.set_momenta(0)","ask b",
                           "b copied from a","b = a","a = b","b destroyed"};
static const int NOP = 12;

static bool run(const Info& I, const std::vector<int>& h) {
  World& w = world(I);
  std::string key = I.name + ":" + join(h);
  at(key);
  Proc* x[2] = {I.make(I,w.set[0]), 0};
  // The brackets of both point to the particles of a (known finding process-copy). They are right for the masses and momenta of
  // their process as long as a has the same ones: when they were updated (us, up), and whenever they were evaluated since (!mixed).
  struct S { int set, point, us, up; bool mixed; } s[2] = {{0,-1,0,-1,false},{0,-1,0,-1,false}};
  auto excused = [&](int i) { return s[i].mixed || s[i].us != s[i].set || s[i].up != s[i].point || s[0].set != s[i].set || s[0].point != s[i].point; };
  std::string text = I.name + " a";
  bool ok = true, run = true;
  st().states++; st().traces++;
  auto judge = [&](int i) {
    if (s[i].point < 0) return true;
    bool ex0 = excused(i);
    if (s[0].set != s[i].us || s[0].point != s[i].up) s[i].mixed = true;
    auto& e = fresh(w,s[i].set,s[i].point);
    bool same = true; std::string what;
    try {
      auto g = ask(I,x[i]);
      ldouble sc = 0; for (auto& v : e) sc = std::max(sc, std::abs(v));
      for (size_t j=0;j<e.size() && same;j++) if (!(std::abs(g[j]-e[j]) <= 1e-12L*sc)) same = false, what = "value number " + std::to_string(j) + " is " + fmt(g[j]) + ", a new process with these masses and momenta gives " + fmt(e[j]);
      outcome(hnum(std::abs(g.back())));
    } catch (const std::exception& ex) { same = false; what = ex.what(); }
    if (same) return true;
    if (ex0 && known("process-copy")) return true;
    fail(key, text + ": " + (i ? "b: " : "a: ") + what);
    return false;
  };
  for (size_t n=0;n<h.size() && ok && run;n++) {
    int o = h[n]; st().transitions++;
    text += std::string("; ") + OP[o];
    int i = o >= 4 && o < 8;
    switch (o) {
      case 0: case 1: case 4: case 5: case 2: case 6: {
        int k = o%4, p = k == 1;
        try {
          if (k == 2) { x[i]->set_masses(w.set[1]); s[i].set = 1; }
          x[i]->set_momenta(w.kin[s[i].set][p].q);
        } catch (const std::exception& ex) {
          s[i].point = p; s[i].us = s[i].set; s[i].up = p;
          if (!(excused(i) && known("process-copy"))) { fail(key, text + ": " + ex.what()); ok = false; }
          run = false;
        }
        s[i].point = p; s[i].us = s[0].set; s[i].up = s[0].point; s[i].mixed = false;
        break; }
      case 3: case 7: ok = judge(i); break;
      case 8: delete x[1]; x[1] = x[0]->clone(); if (!x[1]) { run = false; break; } s[1] = s[0]; break;
      case 9: run = x[1]->assign(x[0]); s[1] = s[0]; break;
      case 10: run = x[0]->assign(x[1]); s[0] = s[1]; break;
      case 11: delete x[1]; x[1] = 0; break;
    }
  }
  if (run) for (int j=0;j<2 && ok;j++) if (x[j]) ok = judge(j);           // shorter histories are explored on their own
  delete x[1]; delete x[0];
  return ok;
}

static bool can(const std::vector<int>& h, int o, const Info& I) {
  bool b = false, mom = false;
  for (int x : h) { if (x == 8) b = true; if (x == 11) b = false; if (x < 3) mom = true; }
  if ((o == 2 || o == 6) && !I.has_masses) return false;
  if (o == 3) return mom;
  if ((o >= 4 && o < 8) || o == 9 || o == 10 || o == 11) return b;
  return true;
}
static bool all(const Info& I, std::vector<int>& h, size_t D) {
  for (int o=0;o<NOP;o++) {
    if (!can(h,o,I)) continue;
    h.push_back(o);
    bool ok = run(I,h) && (h.size() >= D || all(I,h,D));
    h.pop_back();
    if (!ok) return false;
  }
  return true;
}

int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      int n = registry().size(); size_t D = opt().thorough ? 5 : LIGHT ? 3 : 4;
      shards(n*NOP, [&](int sh) {
        const Info& I = registry()[sh % n];
        std::vector<int> h = {sh / n};
        if (!can({},h[0],I)) return;
        if (run(I,h)) all(I,h,D);
        if (sh < 3) { Proc* x = I.make(I,world(I).set[0]); Proc* y = x->clone(); sample(I.name + (y ? ": can be copied" : ": cannot be copied")); delete y; delete x; }
      });
    },
    [](const std::string& key) { auto f = split(key,':'); run(*find(f[0]), ints(f[1])); },
    [] { return std::map<std::string,std::string>{{"processes", std::to_string(registry().size()) + " classes"}, {"histories", std::string("all of length up to ") + (opt().thorough ? "5" : LIGHT ? "3" : "4") + " over 12 operations on an original and a copy"}}; });
}
