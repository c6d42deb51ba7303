// C03: a particle answers from its current mass and momentum after any history.
// Depth-first search over all operation sequences; the snapshot of a state is a
// copy of the real object, so copying is part of every explored history.
#include "mc.h"
#include "spinas.h"
#include "kin.h"
using namespace mc; using namespace spinas;

// ---- momenta of the alphabet
static std::vector<Mom>& A() {
  static std::vector<Mom> v;
  if (v.empty()) {
    auto s = shells(1);
    v.push_back(make_mom({1, 2, 2, 3}, s[0], 0));        // 0 massless, octant
    v.push_back(make_mom({2, -3, -6, 7}, s[1], -1));      // 1 m=14 p=10.5 E=17.5
    v.push_back(make_mom({0, 0, -1, 1}, s[1], 0));        // 2 m=4 along -z
    v.push_back(make_mom({-3, 4, 0, 5}, s[0], 1));        // 3 massless, plane
    v.push_back(make_mom({1, 2, 2, 3}, s[2], 0));         // 4 m=24, same direction as 0
    v.push_back(rest_mom(4));                             // 5 m=4 at rest, same mass as 2
    { Mom q = v[1]; q.p[1] = -q.p[1]; q.name = "1 reflected"; v.push_back(q); }   // 6: same mass and energy as 1
    { Mom q = v[0]; q.p[3] = -q.p[3]; q.name = "0 reflected"; v.push_back(q); }   // 7: same energy as 0
  }
  return v;
}

// ---- queries: each yields up to 4 complex numbers or throws
struct Val { bool threw = false; int n = 0; cdouble z[4]; };
static Val vv(const cvector& v) { Val r; r.n = 2; r.z[0] = v.get(0); r.z[1] = v.get(1); return r; }
static Val vm(const cmatrix& m) { Val r; r.n = 4; for (int i = 0; i < 4; i++) r.z[i] = m.get(i / 2, i % 2); return r; }
static Val vn(ldouble x) { Val r; r.n = 1; r.z[0] = x; return r; }
struct Query { std::string name; std::function<Val(particle&)> f; bool core; };
static std::vector<Query>& Q() {
  static std::vector<Query> q;
  if (q.empty()) {
    auto add = [&](const std::string& n, std::function<Val(particle&)> f, bool core = true) { q.push_back({n, f, core}); };
    add("umat", [](particle& p) { return vm(p.umat()); }); add("lmat", [](particle& p) { return vm(p.lmat()); });
    add("rangle()", [](particle& p) { return vv(p.rangle()); }); add("langle()", [](particle& p) { return vv(p.langle()); });
    add("lsquare()", [](particle& p) { return vv(p.lsquare()); }); add("rsquare()", [](particle& p) { return vv(p.rsquare()); });
    for (int s : {-1, 1}) for (int u = 1; u >= 0; u--) {
      std::string t = "(" + std::to_string(s) + (u ? ",UPPER)" : ",LOWER)"); bool up = u;
      add("rangle" + t, [s, up](particle& p) { return vv(p.rangle(s, up)); }); add("langle" + t, [s, up](particle& p) { return vv(p.langle(s, up)); });
      add("lsquare" + t, [s, up](particle& p) { return vv(p.lsquare(s, up)); }); add("rsquare" + t, [s, up](particle& p) { return vv(p.rsquare(s, up)); });
    }
    for (int s : {-1, 1}) {
      std::string t = "(" + std::to_string(s) + ")";
      add("rangle" + t, [s](particle& p) { return vv(p.rangle(s)); }, false); add("langle" + t, [s](particle& p) { return vv(p.langle(s)); }, false);
      add("lsquare" + t, [s](particle& p) { return vv(p.lsquare(s)); }, false); add("rsquare" + t, [s](particle& p) { return vv(p.rsquare(s)); }, false);
    }
    for (int u = 1; u >= 0; u--) { bool up = u; std::string t = u ? "(UPPER)" : "(LOWER)";
      add("rangle_matrix" + t, [up](particle& p) { return vm(p.rangle_matrix(up)); }, false); add("langle_matrix" + t, [up](particle& p) { return vm(p.langle_matrix(up)); }, false);
      add("lsquare_matrix" + t, [up](particle& p) { return vm(p.lsquare_matrix(up)); }, false); add("rsquare_matrix" + t, [up](particle& p) { return vm(p.rsquare_matrix(up)); }, false); }
    add("rangle_matrix()", [](particle& p) { return vm(p.rangle_matrix()); }, false); add("langle_matrix()", [](particle& p) { return vm(p.langle_matrix()); }, false);
    add("lsquare_matrix()", [](particle& p) { return vm(p.lsquare_matrix()); }, false); add("rsquare_matrix()", [](particle& p) { return vm(p.rsquare_matrix()); }, false);
    add("mass", [](particle& p) { return vn(p.mass()); }, false); add("get_mass", [](particle& p) { return vn(p.get_mass()); }, false);
    add("momentum", [](particle& p) { Val r; r.n = 4; for (int i = 0; i < 4; i++) r.z[i] = p.get_momentum(i); return r; }, false);
    add("dot", [](particle& p) { return vn(p.dot(p)); }, false); add("test_angles", [](particle& p) { return vn(p.test_angles()); }, false);
    typedef cmatrix (particle::*G)() const;
    std::pair<const char*, G> gs[] = {{"j3_lu", &particle::lorentz_j3_lu}, {"jp_lu", &particle::lorentz_jp_lu}, {"jm_lu", &particle::lorentz_jm_lu},
      {"j3_ul", &particle::lorentz_j3_ul}, {"jp_ul", &particle::lorentz_jp_ul}, {"jm_ul", &particle::lorentz_jm_ul},
      {"j3_lu_dot", &particle::lorentz_j3_lu_dot}, {"jp_lu_dot", &particle::lorentz_jp_lu_dot}, {"jm_lu_dot", &particle::lorentz_jm_lu_dot},
      {"j3_ul_dot", &particle::lorentz_j3_ul_dot}, {"jp_ul_dot", &particle::lorentz_jp_ul_dot}, {"jm_ul_dot", &particle::lorentz_jm_ul_dot},
      {"s3_lu", &particle::spin_j3_lu}, {"sp_lu", &particle::spin_jp_lu}, {"sm_lu", &particle::spin_jm_lu},
      {"s3_ul", &particle::spin_j3_ul}, {"sp_ul", &particle::spin_jp_ul}, {"sm_ul", &particle::spin_jm_ul}};
    for (auto& g : gs) { G f = g.second; add(g.first, [f](particle& p) { return vm((p.*f)()); }, false); }
  }
  return q;
}
static Val ask(particle& p, int qi) { try { return Q()[qi].f(p); } catch (const std::exception&) { Val v; v.threw = true; return v; } }

// expected answers: a newly built particle per momentum and per query
static std::vector<std::vector<Val>>& expect() {
  static std::vector<std::vector<Val>> e;
  if (e.empty()) for (auto& m : A()) {
    std::vector<Val> r;
    for (size_t i = 0; i < Q().size(); i++) { particle p(m.p, m.m); r.push_back(ask(p, (int)i)); }
    e.push_back(r);
  }
  return e;
}
static bool same(const Val& a, const Val& b) {
  if (a.threw || b.threw) return a.threw == b.threw;
  if (a.n != b.n) return false;
  for (int i = 0; i < a.n; i++) if (!(std::abs(a.z[i] - b.z[i]) <= 1e-16L*EPSF * (1 + std::abs(b.z[i])))) return false;
  return true;
}
static std::string show(const Val& v) { if (v.threw) return "exception"; std::string s; for (int i = 0; i < v.n; i++) s += fmt(v.z[i]); return s; }

// ---- model: the momentum in force, or -1 while the particle must not be judged
struct Model { ldouble m; int mom; bool sync; };

// operations
enum { SETMASS, SETMOM, OFFSHELL, UPDATE, ASKALL, SELF, QUERY };
struct Op { int kind, arg; std::string name; };
static std::vector<Op>& ops(int nmom, bool allq) {
  static std::map<std::pair<int, bool>, std::vector<Op>> cache;
  auto& v = cache[{nmom, allq}];
  if (v.empty()) {
    // set the mass that belongs to the momentum, then the momentum (the library's protocol), and the raw setters
    for (int i = 0; i < nmom; i++) v.push_back({SETMOM, i, "set_momentum(" + std::to_string(i) + ")"});
    std::set<long double> ms; for (int i = 0; i < nmom; i++) if (ms.insert(A()[i].m).second) v.push_back({SETMASS, i, "set_mass(" + fmts(A()[i].m) + ")"});
    v.push_back({OFFSHELL, 0, "set_momentum(off shell)"}); v.push_back({UPDATE, 0, "update"}); v.push_back({SELF, 0, "self assignment"});
    for (size_t i = 0; i < Q().size(); i++) if (allq || Q()[i].core) v.push_back({QUERY, (int)i, Q()[i].name});
  }
  return v;
}

static bool onshell(ldouble m, const Mom& q) { return m == q.m; }

// apply one operation; returns false and sets why if the answer is wrong
static bool apply(particle& p, Model& md, const Op& o, std::string& why) {
  st().transitions++;
  switch (o.kind) {
    case SETMASS: { ldouble m = A()[o.arg].m; p.set_mass(m); if (m != md.m) md.sync = false; md.m = m; return true; }
    case SETMOM: {
      bool threw = false; try { p.set_momentum(A()[o.arg].p); } catch (const std::exception&) { threw = true; }
      bool should = !onshell(md.m, A()[o.arg]);
      if (threw != should) { why = should ? "off-shell momentum accepted" : "on-shell momentum rejected"; return false; }
      if (threw) { md.sync = false; md.mom = -1; } else { md.mom = o.arg; md.sync = true; }
      return true; }
    case OFFSHELL: {
      ldouble b[4] = {100, 3, 4, 5}; bool threw = false; try { p.set_momentum(b); } catch (const std::exception&) { threw = true; }
      if (!threw) { why = "off-shell momentum accepted"; return false; }
      md.sync = false; md.mom = -1; return true; }
    case UPDATE: {
      bool threw = false; try { p.update(); } catch (const std::exception&) { threw = true; }
      if (md.mom < 0) return true;   // which momentum a rejected call leaves behind is unspecified
      bool should = !onshell(md.m, A()[md.mom]);
      if (threw != should) { why = should ? "update accepted an off-shell state" : "update rejected an on-shell state"; return false; }
      md.sync = !threw; return true; }
    case SELF: { particle& r = p; p = r; return true; }
    default: {
      Val v = ask(p, o.arg);
      if (!md.sync) return true;
      const Val& e = expect()[md.mom][o.arg];
      if (!same(v, e)) { why = o.name + " = " + show(v) + ", a new particle gives " + show(e); return false; }
      st().traces++;
      return true; }
  }
}

// starts: 0 to 7 built with that momentum, 8 built with a mass only (at rest), 9 built with nothing
static Model start_model(int s) { if (s == 8) return {A()[5].m, 5, true}; if (s == 9) return {0, -1, false}; return {A()[s].m, s, true}; }
static particle start_particle(int s) { return s == 8 ? particle(A()[5].m) : s == 9 ? particle() : particle(A()[s].p, A()[s].m); }
static std::string start_name(int s) { return s == 8 ? "new particle(mass)" : s == 9 ? "new particle()" : "new particle(momentum " + std::to_string(s) + ")"; }

struct Walk {
  int nmom; bool allq; int depth; std::vector<int> path; int start;
  std::string key() { return std::string(allq ? "all" : "core") + ":" + std::to_string(nmom) + ":" + std::to_string(start) + ":" + join(path); }
  void dfs(const particle& p, const Model& md) {
    st().states++;
    if ((int)path.size() == depth || enough()) return;
    auto& O = ops(nmom, allq);
    for (size_t i = 0; i < O.size(); i++) {
      path.push_back((int)i);
      if (path.size() + 1 >= (size_t)depth) at(key());
      particle q(p); Model m2 = md; std::string why;
      if (!apply(q, m2, O[i], why)) fail(key(), names() + ": " + why);
      else dfs(q, m2);
      path.pop_back();
    }
  }
  std::string names() { std::string s = start_name(start); for (int i : path) s += "; " + ops(nmom, allq)[i].name; return s; }
};

static void runpath(const std::string& k) {
  auto f = split(k, ':');
  bool allq = f[0] == "all"; int nmom = atoi(f[1].c_str()), start = atoi(f[2].c_str());
  auto path = ints(f[3]);
  particle p = start_particle(start); Model md = start_model(start);
  auto& O = ops(nmom, allq);
  std::string names = start_name(start);
  for (int i : path) {
    names += "; " + O[i].name;
    particle q(p); std::string why;   // copies as in the search
    if (!apply(q, md, O[i], why)) { fail(k, names + ": " + why); return; }
    p = q;
  }
}
// the same histories without copies and with long repetition: w^k followed by all queries
static void pumped(const std::string& k) {
  auto f = split(k, ':'); int nmom = atoi(f[1].c_str()), start = atoi(f[2].c_str()), rep = atoi(f[4].c_str()); auto w = ints(f[3]);
  particle p = start_particle(start); Model md = start_model(start);
  auto& O = ops(nmom, false); std::string why;
  at(k); st().states++;
  for (int r = 0; r < rep; r++) for (int i : w) if (!apply(p, md, O[i], why)) { fail(k, "repeating a word: " + why); return; }
  for (int round = 0; round < 2; round++) {
    for (size_t q = 0; q < Q().size(); q++) { Op o{QUERY, (int)q, Q()[q].name}; if (!apply(p, md, o, why)) { fail(k, "after repeating a word: " + why); return; } }
    Op m{SETMASS, 1, ""}; apply(p, md, m, why); Op s{SETMOM, 1, ""}; if (!apply(p, md, s, why)) { fail(k, why); return; }
  }
}
// counted: everything is asked, then one operation is done exactly n times, then the momentum changes and everything is asked again
static void counted(const std::string& k) {
  auto x = ints(split(k, ':')[1]); int from = x[0], to = x[1], how = x[2], n = x[3];
  at(k); st().states++; st().traces++; st().transitions += n;
  particle p(A()[from].p, A()[from].m); std::vector<int> qs; for (size_t q = 0; q < Q().size(); q++) if (Q()[q].core) qs.push_back(q);
  for (int q : qs) ask(p, q);
  for (int i = 0; i < n; i++) { if (how == 0) p.update(); else if (how == 1) p.set_momentum(A()[from].p); else if (how == 2) p.set_mass(A()[from].m); else ask(p, qs[i % qs.size()]); }
  p.set_mass(A()[to].m); p.set_momentum(A()[to].p);
  for (int q : qs) { Val v = ask(p, q); if (!same(v, expect()[to][q])) { static const char* w[] = {"updates", "calls of set_momentum", "calls of set_mass", "queries"}; fail(k, "momentum " + std::to_string(from) + ", all queries, " + std::to_string(n) + " " + w[how] + ", momentum " + std::to_string(to) + ": " + Q()[q].name + " = " + show(v) + ", a new particle gives " + show(expect()[to][q])); return; } }
}
// copies: a copy made in any state stays what it was while the original goes on, and vice versa
static void copies(const std::string& k) {
  auto f = split(k, ':'); auto x = ints(f[1]); int s0 = x[0], q0 = x[1], s1 = x[2], q1 = x[3], how = x[4];
  at(k); st().states++;
  auto go = [&](particle& a, int mom) { a.set_mass(A()[mom].m); a.set_momentum(A()[mom].p); };
  particle a(A()[s0].p, A()[s0].m); ask(a, q0);
  particle b(A()[s1].p, A()[s1].m); ask(b, q1);
  int ma = s0, mb = s1;
  if (how == 0) { b = a; mb = ma; go(a, s1); ma = s1; }
  else if (how == 1) { b = a; mb = ma; go(b, s1); mb = s1; }
  else if (how == 2) { particle c(a); go(a, s1); ma = s1; b = c; mb = s0; }
  else { std::swap(a, b); std::swap(ma, mb); }
  for (size_t q = 0; q < Q().size(); q++) {
    Val va = ask(a, (int)q), vb = ask(b, (int)q); st().transitions += 2; st().traces++;
    if (!same(va, expect()[ma][q]) || !same(vb, expect()[mb][q])) { fail(k, "copying particles: " + Q()[q].name + " is " + show(va) + " / " + show(vb) + ", expected " + show(expect()[ma][q]) + " / " + show(expect()[mb][q])); return; }
  }
}
static void run_case(const std::string& k) {
  if (k.compare(0, 4, "pump") == 0) pumped(k); else if (k.compare(0, 5, "count") == 0) counted(k); else if (k.compare(0, 4, "copy") == 0) copies(k); else runpath(k);
}

int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      expect(); Q();
      struct Job { bool allq; int nmom, depth, start, first; };
      std::vector<Job> jobs;
      auto plan = [&](bool allq, int nmom, int depth, std::vector<int> starts) { for (int s : starts) for (size_t i = 0; i < ops(nmom, allq).size(); i++) jobs.push_back({allq, nmom, depth, s, (int)i}); };
      if (opt().thorough) { plan(false, 4, 6, {0, 1}); plan(false, 8, 5, {1, 0, 5, 8}); plan(true, 8, 4, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}); }
      else if (LIGHT) plan(true, 8, 2, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}), plan(false, 8, 3, {1, 5, 8});
      else { plan(false, 4, 5, {0, 1}); plan(true, 8, 3, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}); plan(false, 8, 4, {1, 5}); }
      shards(64, [&](int sh) {
        for (size_t j = sh; j < jobs.size(); j += 64) {
          auto& J = jobs[j]; Walk w{J.nmom, J.allq, J.depth, {}, J.start};
          particle p = start_particle(J.start); Model md = start_model(J.start); std::string why;
          w.path.push_back(J.first); at(w.key());
          if (!apply(p, md, ops(J.nmom, J.allq)[J.first], why)) fail(w.key(), w.names() + ": " + why); else w.dfs(p, md);
          if (enough()) return;
        }
        int n = (int)ops(8, false).size(), c = 0;
        for (int s = 0; s < 3; s++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
          if (c++ % 64 != sh) continue;
          for (int rep : LIGHT ? std::vector<int>{7} : std::vector<int>{7, 40, 300}) pumped("pump:8:" + std::to_string(s) + ":" + join({a, b}) + ":" + std::to_string(rep));
          if (opt().thorough) for (int d = 0; d < n; d++) pumped("pump:8:" + std::to_string(s) + ":" + join({a, b, d}) + ":33");
          if (enough()) return;
        }
        c = 0;
        for (int from = 0; from < 8; from++) for (int to = 0; to < 8; to++) for (int how = 0; how < 4; how++) {
          if (c++ % 64 != sh) continue;
          for (int n = 0; n <= (LIGHT ? 20 : 600) && !enough(); n++) counted("count:" + join({from, to, how, n}));
          if (!LIGHT && (to == (from + 1) % 8 || opt().thorough)) for (int n = 65533; n <= 65537 && !enough(); n++) counted("count:" + join({from, to, how, n}));
        }
        int nq = (int)Q().size(); c = 0;
        for (int s0 = 0; s0 < 8; s0++) for (int s1 = 0; s1 < 8; s1++) for (int q0 = 0; q0 < nq; q0++) { if (c++ % 64 != sh) continue;
          for (int q1 = 0; q1 < nq; q1 += (opt().thorough ? 1 : nq)) for (int how = 0; how < 4; how++) copies("copy:" + join({s0, q0, s1, opt().thorough ? q1 : q0, how}));
          if (enough()) return; }
      });
      for (auto& e : expect()) for (auto& v : e) { uint64_t h = v.threw; for (int i = 0; i < v.n; i++) h = mix(mix(h, hnum(v.z[i].real())), hnum(v.z[i].imag())); outcome(h); }
      Walk w{8, false, 5, {4, 9, 14, 2, 17}, 1}; sample(w.names());
      Walk w2{8, true, 4, {1, 10, 3, 12}, 5}; sample(w2.names());
    },
    run_case,
    [] { return opt().thorough ? std::map<std::string, std::string>{{"histories", "all of length <=6 over 4 momenta and the 22 cached queries; <=5 over 8 momenta; <=4 over 8 momenta and all queries"}, {"pumped words", "all words of length <=3, up to 300 repetitions"}, {"counts", "every number of repetitions of one operation up to 600, and 65533 to 65537"}}
                        : LIGHT ? std::map<std::string, std::string>{{"histories", "all of length <=3 over 8 momenta and the 22 cached queries; <=2 over 8 momenta and all queries"}, {"pumped words", "all words of length 2, 7 repetitions"}}
                               : std::map<std::string, std::string>{{"histories", "all of length <=5 over 4 momenta and the 22 cached queries; <=4 over 8 momenta; <=3 over 8 momenta and all queries"}, {"pumped words", "all words of length 2, up to 300 repetitions"}, {"counts", "every number of repetitions of one operation up to 600, and 65533 to 65537"}}; });
}
