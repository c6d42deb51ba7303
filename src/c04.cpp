// C04: value of every bracket shape.   C05: brackets after every history.
#include "mc.h"
#include "spinas.h"
#include "kin.h"
using namespace mc; using namespace spinas;
typedef std::complex<long double> C;

// construct a bracket: form 0 none, 1 left index, 2 right index, 3 both
static sproduct make(bool as, particle* L, particle* R, const std::vector<particle*>& p, int form, bool lu, bool ru) {
  switch (p.size() * 4 + form) {
#define CASES(n, ...) \
    case n * 4 + 0: return sproduct(as, L, ##__VA_ARGS__, R); \
    case n * 4 + 1: return sproduct(as, L, lu, ##__VA_ARGS__, R); \
    case n * 4 + 2: return sproduct(as, L, ##__VA_ARGS__, R, ru); \
    case n * 4 + 3: return sproduct(as, L, lu, ##__VA_ARGS__, R, ru);
    CASES(0) CASES(1, p[0]) CASES(2, p[0], p[1]) CASES(3, p[0], p[1], p[2]) CASES(4, p[0], p[1], p[2], p[3])
    CASES(5, p[0], p[1], p[2], p[3], p[4]) CASES(6, p[0], p[1], p[2], p[3], p[4], p[5])
  }
  throw std::logic_error("shape");
}

struct Pool { std::vector<Mom> m; };
static std::vector<Pool>& pools() {
  static std::vector<Pool> v;
  if (v.empty()) {
    auto s = shells(1);
    v.push_back({{make_mom({1, 2, 2, 3}, s[0], 0), make_mom({2, -3, -6, 7}, s[1], -2), make_mom({-2, 1, 2, 3}, s[0], -1), make_mom({-1, -2, 2, 3}, s[7], -2)}});
    v.push_back({{make_mom({0, 0, 1, 1}, s[0], 0), rest_mom(4), make_mom({0, 0, -1, 1}, s[0], 1), make_mom({0, 0, -1, 1}, s[1], 0)}});
    v.push_back({{make_mom({1, 0, 0, 1}, s[0], 0), make_mom({0, -1, 0, 1}, s[2], -2), make_mom({-3, 0, 4, 5}, s[0], 0), make_mom({0, 3, -4, 5}, s[3], -3)}});
  }
  return v;
}
struct V2 { C a[2]; };
static V2 V(const cvector& v) { return {{v.get(0), v.get(1)}}; }

// independent evaluation: fresh particles, matrices written from the momenta
static C refval(const Pool& P, bool as, int L, int R, const std::vector<int>& mid, bool lu, bool ru, int sl, int sr, long double& scale) {
  particle pl(P.m[L].p, P.m[L].m), pr(P.m[R].p, P.m[R].m);
  bool ml = P.m[L].m != 0, mr = P.m[R].m != 0;
  V2 x = as ? (ml ? V(pl.langle(sl, lu)) : V(pl.langle())) : (ml ? V(pl.lsquare(sl, lu)) : V(pl.lsquare()));
  scale = 2 * std::sqrt(P.m[L].p[0] * P.m[R].p[0]);
  bool angle = as;
  for (int k : mid) {
    const ldouble* p = P.m[k].p; C M[2][2]; scale *= 2 * p[0];
    if (angle) { M[0][0] = p[0] + p[3]; M[0][1] = C(p[1], -p[2]); M[1][0] = C(p[1], p[2]); M[1][1] = p[0] - p[3]; }
    else { M[0][0] = p[0] - p[3]; M[0][1] = C(-p[1], p[2]); M[1][0] = C(-p[1], -p[2]); M[1][1] = p[0] + p[3]; }
    V2 y; for (int j = 0; j < 2; j++) y.a[j] = x.a[0] * M[0][j] + x.a[1] * M[1][j];
    x = y; angle = !angle;
  }
  V2 r = angle ? (mr ? V(pr.rangle(sr, ru)) : V(pr.rangle())) : (mr ? V(pr.rsquare(sr, ru)) : V(pr.rsquare()));
  return x.a[0] * r.a[0] + x.a[1] * r.a[1];
}

// ---------------------------------------------------------------- C04
static void shape(const std::string& key) {
  auto f = split(key, ':'); auto x = ints(f[1]); auto mid = ints(f[2]);
  int pi = x[0]; bool as = x[1]; int L = x[2], R = x[3], form = x[4]; bool lu = x[5], ru = x[6];
  at(key);
  const Pool& P = pools()[pi];
  std::vector<particle> ps; for (auto& m : P.m) ps.push_back(particle(m.p, m.m));
  std::vector<particle*> pm; for (int k : mid) pm.push_back(&ps[k]);
  bool ml = P.m[L].m != 0, mr = P.m[R].m != 0;
  bool elu = (form & 1) ? lu : true, eru = (form & 2) ? ru : true;
  bool illegal = (!ml && !elu) || (!mr && !eru);
  st().states++;
  sproduct s; bool threw = false;
  try { s = make(as, &ps[L], &ps[R], pm, form, lu, ru); } catch (const std::exception&) { threw = true; }
  if (threw) { if (!illegal) fail(key, "constructing the bracket or its first update throws"); st().traces++; st().counters["rejected_shapes"]++; return; }
  for (int round = 0; round < 3; round++) {   // as constructed, after an explicit update, and of a copy
    sproduct t = s; sproduct& u = round == 2 ? t : s;
    if (round == 1 || illegal) { threw = false; try { u.update(); } catch (const std::exception&) { threw = true; }
      if (threw != illegal) { fail(key, illegal ? "lower index on a massless end accepted by update" : "update throws"); return; }
      if (illegal) { st().traces++; st().counters["rejected_shapes"]++; return; } }
    for (int sl = -1; sl <= 1; sl += 2) for (int sr = -1; sr <= 1; sr += 2) {
      if (!ml && sl > 0) continue; if (!mr && sr > 0) continue;
      long double scale; C e = refval(P, as, L, R, mid, elu, eru, sl, sr, scale);
      C v = ml && mr ? u.v(sl, sr) : ml ? u.v(sl) : mr ? u.v(sr) : u.v();
      st().transitions++;
      if (!(std::abs(v - e) <= 1e-16L*EPSF * scale)) { fail(key, std::string("round ") + std::to_string(round) + " spins " + std::to_string(sl) + "," + std::to_string(sr) + ": " + fmt(v) + " expected " + fmt(e)); return; }
      outcome(mix(hnum(v.real()), hnum(v.imag())));
    }
  }
  st().traces++;
  if (st().states % 100003 == 1) sample(key + " (pool,angle,L,R,form,iL,iR:insertions)");
}
static void enum_shapes() {
  int maxfull = opt().thorough ? 6 : 5;
  for (int pi = 0; pi < 3; pi++)
    shards(32, [&](int sh) {
      uint64_t c = 0;
      for (int N = 0; N <= 6; N++) {
        int base = N <= maxfull ? 4 : 3; uint64_t tot = 1; for (int i = 0; i < N; i++) tot *= base;
        if (!opt().thorough && pi > 0 && N > 4) { base = 3; tot = 1; for (int i = 0; i < N; i++) tot *= 3; }
        for (uint64_t code = 0; code < tot; code++) {
          std::vector<int> mid; uint64_t q = code; for (int i = 0; i < N; i++) { mid.push_back((int)(q % base)); q /= base; }
          for (int L = 0; L < 4; L++) for (int R = 0; R < 4; R++) {
            if (c++ % 32 != (uint64_t)sh) continue;
            for (int as = 0; as < 2; as++) for (int form = 0; form < 4; form++)
              for (int lu = 1; lu >= ((form & 1) ? 0 : 1); lu--) for (int ru = 1; ru >= ((form & 2) ? 0 : 1); ru--)
                shape("shape:" + join({pi, as, L, R, form, lu, ru}) + ":" + join(mid));
            if (enough()) return;
          }
        }
      }
    });
}

// ---------------------------------------------------------------- C05
// Worlds: three particles, two brackets sharing them.
struct Bk { bool as; int L, R; std::vector<int> mid; int form; bool lu, ru; };
struct World { Bk b[2]; };
static std::vector<World>& worlds() {
  static std::vector<World> w = {
    {{{true, 0, 1, {}, 0, true, true}, {false, 1, 0, {2}, 0, true, true}}},
    {{{false, 0, 1, {}, 0, true, true}, {true, 2, 2, {0, 1}, 0, true, true}}},
    {{{true, 0, 0, {1}, 0, true, true}, {true, 1, 2, {0, 0, 1}, 0, true, true}}},
    {{{true, 0, 1, {2}, 3, false, true}, {false, 1, 0, {2, 2}, 3, true, false}}},
    {{{false, 2, 0, {1, 0, 1, 2}, 0, true, true}, {true, 0, 2, {1, 1, 0, 2, 1}, 0, true, true}}},
    {{{true, 0, 1, {2, 1, 0, 2, 1, 0}, 0, true, true}, {true, 0, 1, {2, 1, 0, 2, 1, 0}, 3, false, false}}},
    {{{false, 0, 1, {0}, 0, true, true}, {true, 0, 1, {0}, 0, true, true}}},
  };
  return w;
}
// per particle, the momenta it can take
static std::vector<Mom>& choices(int part) {
  static std::vector<Mom> v[3];
  if (v[0].empty()) {
    auto s = shells(1);
    v[0] = {make_mom({1, 2, 2, 3}, s[0], 0), make_mom({2, -3, -6, 7}, s[1], -2), make_mom({-2, 6, 3, 7}, s[1], -2)};
    v[1] = {make_mom({-1, -2, 2, 3}, s[7], -2), make_mom({-2, 1, 2, 3}, s[0], -1), make_mom({0, 0, -1, 1}, s[1], 0)};
    v[2] = {make_mom({-3, 0, 4, 5}, s[0], 0), make_mom({0, 3, -4, 5}, s[3], -3), rest_mom(4)};
  }
  return v[part];
}
struct Op { int kind, a, b, c; };   // 0 set particle a to choice b; 1 update bracket a; 2 v(); 3 v(b); 4 v(b,c); 5 update particle a; 6 construct bracket a again
static std::vector<Op>& ops5() {
  static std::vector<Op> v;
  if (v.empty()) {
    for (int p = 0; p < 3; p++) for (int c = 0; c < 3; c++) v.push_back({0, p, c, 0});
    for (int b = 0; b < 2; b++) {
      v.push_back({1, b, 0, 0});
      v.push_back({2, b, 0, 0}); for (int s = -1; s <= 1; s += 2) v.push_back({3, b, s, 0});
      for (int s = -1; s <= 1; s += 2) for (int t = -1; t <= 1; t += 2) v.push_back({4, b, s, t});
    }
    v.push_back({5, 0, 0, 0}); v.push_back({6, 0, 0, 0}); v.push_back({7, 1, 0, 0});
  }
  return v;
}
static std::string opname(const Op& o) {
  std::ostringstream s; char b = 'X' + o.a;
  switch (o.kind) { case 0: s << "particle " << o.a << " := " << choices(o.a)[o.b].name; break; case 1: s << b << ".update()"; break; case 2: s << b << ".v()"; break;
    case 3: s << b << ".v(" << o.b << ")"; break; case 4: s << b << ".v(" << o.b << "," << o.c << ")"; break; case 5: s << "particle " << o.a << ".update()"; break; case 6: s << "rebuild " << b; break; default: s << b << " = copy of " << b; }
  return s.str();
}
struct Ref { bool threw; C z; long double sc; };
// memo of fresh evaluations: (world, bracket, choice of each particle, arity/spins)
static Ref& fresh5(int w, int b, const int ch[3], int ar, int s, int t) {
  static std::vector<Ref> memo; static std::vector<char> have;
  if (memo.empty()) { memo.resize(worlds().size() * 2 * 27 * 7); have.resize(memo.size()); }
  int sp = ar == 0 ? 0 : ar == 1 ? 1 + (s > 0) : 3 + (s > 0) * 2 + (t > 0);
  size_t k = (((size_t)w * 2 + b) * 27 + ch[0] * 9 + ch[1] * 3 + ch[2]) * 7 + sp;
  if (!have[k]) {
    have[k] = 1;
    const Bk& B = worlds()[w].b[b];
    Pool P; for (int i = 0; i < 3; i++) P.m.push_back(choices(i)[ch[i]]);
    bool ml = P.m[B.L].m != 0, mr = P.m[B.R].m != 0;
    bool lu = (B.form & 1) ? B.lu : true, ru = (B.form & 2) ? B.ru : true;
    if ((int)ml + (int)mr != ar || (!ml && !lu) || (!mr && !ru)) memo[k] = {true, 0, 1};
    else { long double sc; C z = refval(P, B.as, B.L, B.R, B.mid, lu, ru, s, ar == 1 ? s : t, sc); memo[k] = {false, z, sc}; }
  }
  return memo[k];
}
// returns the index after which the history was abandoned (second rejected call), or its length
static size_t history(const std::string& key, int wi, const std::vector<int>& path, bool bound = false) {
  const World& W = worlds()[wi];
  int ch[3] = {1, 0, 0};
  std::vector<particle> ps; for (int i = 0; i < 3; i++) ps.push_back(particle(choices(i)[ch[i]].p, choices(i)[ch[i]].m));
  auto build = [&](int b) { std::vector<particle*> m; for (int k : W.b[b].mid) m.push_back(&ps[k]); return make(W.b[b].as, &ps[W.b[b].L], &ps[W.b[b].R], m, W.b[b].form, W.b[b].lu, W.b[b].ru); };
  auto uses = [&](int b, int p) { if (W.b[b].L == p || W.b[b].R == p) return true; for (int k : W.b[b].mid) if (k == p) return true; return false; };
  auto legal = [&](int b) { bool lu = (W.b[b].form & 1) ? W.b[b].lu : true, ru = (W.b[b].form & 2) ? W.b[b].ru : true; return (lu || choices(W.b[b].L)[ch[W.b[b].L]].m != 0) && (ru || choices(W.b[b].R)[ch[W.b[b].R]].m != 0); };
  sproduct S[2]; bool sync[2] = {true, true}; int rejected = 0;
  for (int b = 0; b < 2; b++) { S[b] = build(b); try { S[b].update(); } catch (const std::exception&) {} sync[b] = legal(b); }
  for (size_t i = 0; i < path.size(); i++) {
    const Op& o = ops5()[path[i]]; st().transitions++;
    auto bad = [&](const std::string& why) { std::string h; for (size_t j = i > 400 ? i - 40 : 0; j <= i; j++) h += (h.empty() ? "" : "; ") + opname(ops5()[path[j]]); fail(key, h + ": " + why); };
    if (o.kind == 0) { auto& m = choices(o.a)[o.b]; ps[o.a].set_mass(m.m); ps[o.a].set_momentum(m.p); if (ch[o.a] != o.b) for (int b = 0; b < 2; b++) if (uses(b, o.a)) sync[b] = false; ch[o.a] = o.b; }
    else if (o.kind == 5) ps[o.a].update();
    else if (o.kind == 7) { sproduct c(S[o.a]); S[o.a] = sproduct(); S[o.a] = c; }
    else if (o.kind == 1 || o.kind == 6) {
      bool threw = false; try { if (o.kind == 6) S[o.a] = build(o.a); S[o.a].update(); } catch (const std::exception&) { threw = true; }
      if (threw && ++rejected > 1 && bound) return i;
      if (threw == legal(o.a)) { bad(threw ? "update throws" : "update accepts a lower index on a massless end"); return i; }
      sync[o.a] = !threw;
    } else {
      Ref r; try { r = {false, o.kind == 2 ? S[o.a].v() : o.kind == 3 ? S[o.a].v(o.b) : S[o.a].v(o.b, o.c), 1}; } catch (const std::exception&) { r = {true, 0, 1}; }
      if (r.threw && ++rejected > 1 && bound) return i;
      if (!sync[o.a]) continue;
      Ref& e = fresh5(wi, o.a, ch, o.kind - 2, o.b, o.c); st().traces++;
      if (r.threw != e.threw) { bad(r.threw ? "throws although the spins fit" : "accepts the wrong number of spins"); return i; }
      if (!r.threw && !(std::abs(r.z - e.z) <= 1e-15L*EPSF * e.sc)) { bad(fmt(r.z) + ", a new bracket gives " + fmt(e.z)); return i; }
      if (!r.threw && i + 1 == path.size()) outcome(mix(mix(hnum(r.z.real()), hnum(r.z.imag())), wi));
    }
  }
  return path.size();
}
// every bracket is evaluated, then one operation is done exactly n times, then a particle changes and the brackets are updated
static void counted(const std::string& key) {
  auto x = ints(split(key, ':')[1]); int w = x[0], op = x[1], part = x[2], n = x[3], N = (int)ops5().size();
  std::vector<int> p; auto evals = [&] { for (int i = 0; i < N; i++) if (ops5()[i].kind >= 2 && ops5()[i].kind <= 4) p.push_back(i); };
  auto upd = [&] { for (int i = 0; i < N; i++) if (ops5()[i].kind == 1) p.push_back(i); };
  at(key); evals(); for (int i = 0; i < n; i++) p.push_back(op);
  p.push_back(part); upd(); evals(); evals();
  history(key, w, p); st().states++;
}
static void enum_hist() {
  int n = (int)ops5().size(), depth = opt().thorough ? 6 : LIGHT ? 3 : 4;
  struct J { int w, a, b; }; std::vector<J> jobs;
  for (int w = 0; w < (int)worlds().size(); w++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) jobs.push_back({w, a, b});
  shards(64, [&](int sh) {
    for (size_t j = sh; j < jobs.size(); j += 64) {
      int D = depth; if (!opt().thorough && !LIGHT && (jobs[j].w == 0 || jobs[j].w == 3)) D = 5;
      if (opt().thorough && jobs[j].w > 2) D = 5;
      std::vector<int> path(D, 0); path[0] = jobs[j].a; path[1] = jobs[j].b;
      while (true) {
        std::string key = "hist:" + std::to_string(jobs[j].w) + ":"; 
        if (path[D - 1] == 0) at(key + join(path));
        size_t before = st().violations.size();
        size_t stop = history(key, jobs[j].w, path, true); st().states++;
        if (st().violations.size() > before) st().violations.back().key = key + join(path);
        if (enough()) return;
        int k = (int)std::min(stop, (size_t)D - 1); for (int q = k + 1; q < D; q++) path[q] = 0;   // same prefix, same rejection
        while (k >= 2 && ++path[k] == n) { path[k] = 0; k--; }
        if (k < 2) break;
      }
    }
    // long repetitions of every word of length 3, then a sweep of evaluations
    int c = 0;
    for (int w = 0; w < (int)worlds().size(); w++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
      if (c++ % 64 != sh) continue;
      for (int rep : LIGHT ? std::vector<int>{9} : std::vector<int>{9, 120}) {
        std::vector<int> p; for (int r = 0; r < rep; r++) { p.push_back(a); p.push_back(b); }
        for (int i = 0; i < n; i++) if (ops5()[i].kind == 1) p.push_back(i);
        for (int i = 0; i < n; i++) if (ops5()[i].kind >= 2 && ops5()[i].kind <= 4) p.push_back(i);
        for (int i = n - 1; i >= 0; i--) if (ops5()[i].kind >= 2 && ops5()[i].kind <= 4) p.push_back(i);
        std::string key = "hist:" + std::to_string(w) + ":" + join(p); at(key); history(key, w, p); st().states++;
      }
      if (enough()) return;
    }
  });
  shards(64, [&](int sh) {
    int c = 0;
    for (int w = 0; w < (int)worlds().size(); w++) for (int op = 0; op < n; op++) for (int part : {0, 2, 4, 5, 7}) {
      if (c++ % 64 != sh) continue;
      for (int k = LIGHT ? 5 : 1; k <= (LIGHT ? 5 : 300) && !enough(); k++) counted("count:" + join({w, op, part, k}));
      if (!LIGHT && part == 2) for (int k = 65534; k <= 65537 && !enough(); k++) counted("count:" + join({w, op, part, k}));
    }
  });
  std::string s; for (int i : {1, 9, 13, 0, 9}) s += opname(ops5()[i]) + "; "; sample(s);
}

int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] { if (opt().prop == "C04") enum_shapes(); else enum_hist(); },
    [](const std::string& k) { auto f = split(k, ':'); if (f[0] == "shape") shape(k); else if (f[0] == "count") counted(k); else history(k, atoi(f[1].c_str()), ints(f[2])); },
    [] { return opt().prop == "C04" ? std::map<std::string, std::string>{{"insertions", "0..6, every assignment of a pool of 4 particles (3 where stated in DESIGN.md) to the slots"}, {"ends", "all 16 ordered pairs of the pool, aliasing included"}, {"forms", "all 28 constructors with all index values"}, {"pools", "3"}}
                                    : std::map<std::string, std::string>{{"history length", opt().thorough ? "6 (worlds 0-2), 5 (others), at most one rejected call" : LIGHT ? "3, at most one rejected call" : "5 (worlds 0 and 3), 4 (others), at most one rejected call"}, {"operations", std::to_string(ops5().size())}, {"counts", LIGHT ? "5" : "every number of repetitions of one operation up to 300, and 65534 to 65537"}, {"worlds", std::to_string(worlds().size())}}; });
}
