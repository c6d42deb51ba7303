// C15: a process answers from its current masses and momenta after any history.
// All operation sequences up to a depth on every class; a newly built process is the oracle.
#include "smk.h"
using namespace mc; using namespace sm;

static const int NPOINT = 3;
struct World {
  const Info* I;
  std::vector<Par> sets;                                  // mass sets: first, all changed, one changed each
  std::vector<std::array<Kin,NPOINT>> kin;
  struct Op { int kind, arg; std::string name; };         // 0 masses, 1 v, 2 momenta, 3 rejected momenta, 4 amp2, 5 amp, 6 polarized, 7 amp2(momenta)
  std::vector<Op> ops;
  struct Answers { std::vector<cdouble> v; ldouble scale; };
  std::map<std::array<int,3>,Answers> fresh;              // mass set, v, point
};
static const ldouble VEVS[] = {246, 61};

static World::Answers ask(const Info& I, Proc* x) {
  World::Answers a; a.scale = 0;
  std::vector<std::vector<int>> sp(4, std::vector<int>{0});
  for (int i : I.labelled) {
    const std::string& l = I.legs[i];
    sp[i] = l == "A" || l == "g" ? std::vector<int>{-2,2} : l == "Z" || l[0] == 'W' ? std::vector<int>{-2,0,2} : std::vector<int>{-1,1};
  }
  for (size_t k=0;k<I.amps.size();k++) for (int a0 : sp[0]) for (int a1 : sp[1]) for (int a2 : sp[2]) for (int a3 : sp[3]) {
    int d[4] = {a0,a1,a2,a3};
    a.v.push_back(x->amp(k,d)); a.scale = std::max(a.scale, std::abs(a.v.back()));
  }
  a.v.push_back(x->amp2());
  for (size_t k=0;k<I.pols.size();k++) a.v.push_back(x->pol(k));
  return a;
}

static World& world(const Info& I) {
  static World w;
  if (w.I == &I) return w;
  w = World(); w.I = &I;
  Par a = {}, b = {};
  for (int i=0;i<NPAR;i++) { auto v = alphabet(i,0); a[i] = v[0]; b[i] = v.size() > 1 ? v[1] : v[0]; }
  for (int i=ME;i<=MB;i++) a[i] = 3.5L + 0.7L*i;
  a[WW] = b[WW] = 2.0625L; a[WZ] = b[WZ] = 2.5L; a[WH] = b[WH] = 0.5L;
  for (int i : {E,GS,SW,VEV}) b[i] = a[i];
  w.sets = {a,b};
  for (int m : I.masses) { Par c = a; c[m] = b[m]; w.sets.push_back(c); }
  if (!I.has_masses) w.sets.resize(1);
  feyn::Process P; P.build(model(a,I), I.legs);
  for (auto& p : w.sets) {
    ldouble ms[4]; leg_masses(P, model(p,I), ms);
    std::array<Kin,NPOINT> k;
    k[0] = sm::kin(ms, energy(ms,2,60), 0.3L, beams()[1][0], beams()[1][1]);
    k[1] = sm::kin(ms, energy(ms,0,45), -0.7L, beams()[0][0], beams()[0][1]);
    k[2] = sm::kin(ms, energy(ms,2,60), -0.2L, beams()[3][0], beams()[3][1]);
    w.kin.push_back(k);
  }
  for (size_t i=0;i<w.sets.size() && I.has_masses;i++) w.ops.push_back({0,(int)i,"set_masses(set " + std::to_string(i) + ")"});
  if (I.has_v) for (int i=0;i<2;i++) w.ops.push_back({1,i,"set_v(" + fmts(VEVS[i]) + ")"});
  for (int i=0;i<NPOINT;i++) w.ops.push_back({2,i,"set_momenta(point " + std::to_string(i) + ")"});
  for (int i : {1,3}) w.ops.push_back({3,i,"set_momenta(off shell in " + std::to_string(i+1) + ")"});
  w.ops.push_back({4,0,"amp2()"});
  w.ops.push_back({5,0,"amp(first spins)"});
  w.ops.push_back({5,1,"amp(last spins)"});
  if (!I.pols.empty()) w.ops.push_back({6,0,"polarized"});
  if (I.has_mom) w.ops.push_back({7,1,"amp2(momenta)"});
  return w;
}
static const World::Answers& fresh(World& w, int s, int v, int p) {
  std::array<int,3> k = {s,v,p};
  auto it = w.fresh.find(k);
  if (it != w.fresh.end()) return it->second;
  Par q = w.sets[s]; if (w.I->has_v) q[VEV] = VEVS[v];
  Proc* x = w.I->make(*w.I,q); x->set_momenta(w.kin[s][p].q);
  auto a = ask(*w.I,x); delete x;
  return w.fresh[k] = a;
}

static std::string history(World& w, int start, const std::vector<int>& h) {
  std::string s = w.I->name + " built with set " + std::to_string(start); size_t first = h.size() > 30 ? h.size() - 10 : 0;
  if (first) s += "; " + std::to_string(first) + " operations";
  for (size_t i=first;i<h.size();i++) s += "; " + w.ops[h[i]].name;
  return s;
}
// one history: returns false after a report
static bool run(const Info& I, int start, const std::vector<int>& h, int last, std::string key = "", bool always = false) {
  World& w = world(I);
  if (key.empty()) key = I.name + ":" + std::to_string(start) + ":" + join(h) + ":" + std::to_string(last);
  at(key); st().states++; st().traces++;
  Proc* x = I.make(I,w.sets[start]);
  int s = start, v = 0, point = -1;
  auto judge = [&](const std::string& when) {
    const World::Answers& e = fresh(w,s,v,point);
    World::Answers g = ask(I,x);
    for (size_t i=0;i<e.v.size();i++) {
      ldouble sc = i + 1 + I.pols.size() < e.v.size() ? e.scale : std::abs(e.v[i]);
      outcome(hnum(std::abs(g.v[i])));
      if (!(std::abs(g.v[i]-e.v[i]) <= 1e-12L*sc)) {
        int n = e.v.size() - 1 - I.pols.size();
        std::string what = (int)i < n ? "amplitude number " + std::to_string(i) : (int)i == n ? "amp2()" : I.pols[i-n-1].name + "()";
        std::string masses; for (auto m : I.masses) masses += std::string(" ") + par_name[m] + "=" + fmts(w.sets[s][m]);
        fail(key, history(w,start,h) + when + ": " + what + " = " + fmt(g.v[i]) + ", a new process with the same masses (" + masses + " ) and momenta gives " + fmt(e.v[i]));
        return false;
      }
    }
    return true;
  };
  bool ok = true;
  try {
    for (size_t n=0;n<h.size();n++) {
      const World::Op& o = w.ops[h[n]]; st().transitions++;
      switch (o.kind) {
        case 0: x->set_masses(w.sets[o.arg]); s = o.arg; point = -1; break;
        case 1: { Par p = w.sets[s]; p[VEV] = VEVS[o.arg]; x->set_v(p); v = o.arg; point = -1; break; }
        case 2: x->set_momenta(w.kin[s][o.arg].q); point = o.arg; break;
        case 3: { Kin k = w.kin[s][1]; k.q[o.arg][0] = k.q[o.arg][0]*1.5L + 7; try { x->set_momenta(k.q); } catch (...) {} point = -1; break; }
        default: try {
          if (o.kind == 4) x->amp2();
          else if (o.kind == 5) { int d[4]; for (int i=0;i<4;i++) { const std::string& l = I.legs[i]; d[i] = (o.arg ? -1 : 1)*(l == "A" || l == "g" || l == "Z" || l[0] == 'W' ? 2 : 1); } for (size_t k=0;k<I.amps.size();k++) x->amp(k,d); }
          else if (o.kind == 6) for (size_t k=0;k<I.pols.size();k++) x->pol(k);
          else { x->amp2_of(w.kin[s][o.arg].q); point = -1; }
        } catch (...) { if (point >= 0) throw; }
      }
      if (always && point >= 0 && !(ok = judge(" (step " + std::to_string(n) + ")"))) break;
    }
    if (!ok) ;
    else if (point < 0 || last < NPOINT) { point = last % NPOINT; x->set_momenta(w.kin[s][point].q); ok = judge("; set_momenta(point " + std::to_string(point) + ")"); }
    else ok = judge("");
    if (ok) ok = judge("; asked again");
  } catch (const std::exception& e) { fail(key, history(w,start,h) + ": " + e.what()); ok = false; }
  delete x;
  return ok;
}

// all operations in turn on one object, asked for everything after each
static bool long_use(const Info& I, int last) {
  int no = world(I).ops.size(); std::vector<int> h; for (int i=0;i<(LIGHT ? 300 : 3000);i++) h.push_back((i*7 + i/no) % no);
  return run(I,0,h,last,I.name + ":long:" + std::to_string(last) + ":",last == 1);
}
// everything is asked, then one operation is done exactly n times, then the momenta change and everything is asked again
static bool counted(const Info& I, int op, int n) {
  World& w = world(I); std::vector<int> h;
  int m0 = 0; while (w.ops[m0].kind != 2) m0++;
  h.push_back(m0); for (int i=0;i<(int)w.ops.size();i++) if (w.ops[i].kind >= 4 && w.ops[i].kind < 7) h.push_back(i);
  h.insert(h.end(),n,op);
  return run(I,0,h,1,I.name + ":count:" + std::to_string(op) + ":" + std::to_string(n));
}
static void run_case(const std::string& key) {
  auto f = split(key,':');
  if (f[1] == "long") { long_use(*find(f[0]), atoi(f[2].c_str())); return; }
  if (f[1] == "count") { counted(*find(f[0]), atoi(f[2].c_str()), atoi(f[3].c_str())); return; }
  run(*find(f[0]), atoi(f[1].c_str()), f[2].empty() ? std::vector<int>() : ints(f[2]), atoi(f[3].c_str()));
}

int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      int n = registry().size(), parts = 6, D = opt().thorough ? 5 : LIGHT ? 2 : 3;
      shards(n*parts, [&](int sh) {
        const Info& I = registry()[sh % n];
        World& w = world(I);
        int no = w.ops.size(), bad = 0; long c = 0;
        for (int start=0; start<(int)std::min<size_t>(2,w.sets.size()); start++) for (int d=0; d<=D; d++) {
          long tot = 1; for (int i=0;i<d;i++) tot *= no;
          for (long q=0; q<tot && bad<2; q++) {
            if (c++ % parts != sh / n) continue;
            std::vector<int> h; long r = q; for (int i=0;i<d;i++) { h.push_back(r % no); r /= no; }
            if (!run(I,start,h, d < D ? 0 : 3)) bad++;
          }
        }
        // deeper over the operations that matter most
        std::vector<int> core;
        for (int i=0;i<no;i++) { auto& o = w.ops[i]; if ((o.kind == 0 && o.arg < 2) || (o.kind == 2 && o.arg < 2) || o.kind == 4) core.push_back(i); }
        for (int start=0; start<(int)std::min<size_t>(2,w.sets.size()); start++) for (int d=D+1; d<=(opt().thorough ? D+2 : D+1); d++) {
          long nc = core.size(), tot = 1; for (int i=0;i<d;i++) tot *= nc;
          for (long q=0; q<tot && bad<2; q++) {
            if (c++ % parts != sh / n) continue;
            std::vector<int> h; long r = q; for (int i=0;i<d;i++) { h.push_back(core[r % nc]); r /= nc; }
            if (!run(I,start,h,3)) bad++;
          }
        }
        // long use of one object
        if (sh / n == 0 && !bad) long_use(I,0), long_use(I,1);
        if (!bad && !LIGHT) for (int op=0; op<no; op++) {
          int k = w.ops[op].kind; if (k == 3 || k > 4 || (k == 0 && w.ops[op].arg > 1) || (k == 2 && w.ops[op].arg)) continue;
          for (int m=1; m<=300 && bad<2; m++) if ((m + op) % parts == sh / n && !counted(I,op,m)) bad++;
          if (k == 2) for (int m=65534; m<=65537 && bad<2; m++) if (m % parts == sh / n && !counted(I,op,m)) bad++;
        }
        if (sh < 4) sample(history(w,0,{0,no-1,2,3}));
      });
    },
    run_case,
    [] { return std::map<std::string,std::string>{{"processes", std::to_string(registry().size()) + " classes"}, {"histories", std::string("all sequences of up to ") + (opt().thorough ? "5" : LIGHT ? "2" : "3") + " operations over 9 to 16 operations per class from 2 starting mass sets, and longer ones over 5 of them, then momenta and every amplitude"}, {"counts", "every number of repetitions of one operation up to 300, 65534 to 65537 of set_momenta; 3000 operations with all answers after each"}, {"mass sets", "one base, all changed, and each mass changed alone"}}; });
}
