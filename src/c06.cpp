// C06: misuse is rejected with an exception in every state, and does no harm.
// Histories over one world (particles and brackets), with a bounded number of misuses each.
#include "mc.h"
#include "spinas.h"
#include "kin.h"
#include <climits>
using namespace mc; using namespace spinas;
typedef std::complex<long double> C;

static std::vector<Mom>& A() {
  static std::vector<Mom> v;
  if (v.empty()) { auto s = shells(1);
    v = {make_mom({1, 2, 2, 3}, s[0], 0), make_mom({2, -3, -6, 7}, s[1], -2), make_mom({-2, 1, 2, 3}, s[0], 2), rest_mom(4)}; }
  return v;
}
static const Mom& YM() { static Mom m = make_mom({-1, -2, 2, 3}, shells(1)[7], -2); return m; }
static const Mom& ZM() { static Mom m = make_mom({-3, 0, 4, 5}, shells(1)[0], 0); return m; }

// The world: X changes between massless and massive; Y is massive; Z is massless.
struct World {
  particle X, Y, Z; sproduct S[4]; int x = 0; bool xok = true;
  World(int start) : X(A()[1].p, A()[1].m), Y(YM().p, YM().m), Z(ZM().p, ZM().m), x(start) {
    S[0] = sproduct(ANGLE, &X, &Y); S[1] = sproduct(SQUARE, &Z, &X, &Y); S[2] = sproduct(ANGLE, &X, LOWER, &Y, &Z, &Y, LOWER); S[3] = sproduct(SQUARE, &Z, &Y, &X);
    X.set_mass(A()[start].m); X.set_momentum(A()[start].p); upd();
  }
  World(const World&) = delete;
  bool mx() const { return A()[x].m != 0; }
  // all brackets, as a process does; the lower-index one must refuse a massless X
  bool upd() { bool ok = true; for (int i = 0; i < 4; i++) { bool t = false; try { S[i].update(); } catch (const std::exception&) { t = true; } if (t != (i == 2 && !mx())) ok = false; } return ok; }
};
struct Out { bool threw; C z; };
static C h2(const cvector& v) { return v.get(0) + C(0.3L, 0.7L) * v.get(1); }
static C h4(const cmatrix& m) { return m.get(0, 0) + C(0.3L, 0.7L) * m.get(0, 1) + C(1.1L, -.2L) * m.get(1, 0) + C(-.4L, .9L) * m.get(1, 1); }

struct Op { std::string name; int kind; std::function<C(World&)> f; std::function<bool(const World&)> misuse; };  // kind 0: state change, 1: query
static std::vector<Op>& ops() {
  static std::vector<Op> v;
  if (!v.empty()) return v;
  auto never = [](const World&) { return false; }; auto always = [](const World&) { return true; };
  for (int i = 0; i < 4; i++) v.push_back({"X:=" + std::to_string(i), 0, [i](World& w) { w.X.set_mass(A()[i].m); w.X.set_momentum(A()[i].p); w.x = i; w.xok = true; if (!w.upd()) throw std::logic_error("bracket update"); return C(0); }, never});
  // off-shell momenta: X keeps a stale momentum and must be set again before it is judged
  struct Bad { const char* n; long double p[4]; };
  static Bad bad[] = {{"wrong energy", {100, 3, 4, 5}}, {"zero energy", {0, 3, 4, 5}}, {"NaN energy", {NAN, 1, 2, 2}}, {"NaN component", {9, 1, NAN, 2}}, {"infinite", {INFINITY, 1, 2, 2}}, {"infinite component", {3, INFINITY, 2, 2}}, {"slightly off", {9.00001L, 5, 2, 2.5L}}, {"wrong mass", {1000, 0, 0, 0}}};
  for (auto& b : bad) { Bad* q = &b; v.push_back({std::string("X.set_momentum(") + b.n + ")", 0, [q](World& w) { w.xok = false; ldouble p[4]; for (int i = 0; i < 4; i++) p[i] = q->p[i]; w.X.set_momentum(p); return C(0); }, always}); }
  for (auto& b : bad) { Bad* q = &b; v.push_back({std::string("new particle(") + b.n + ")", 1, [q](World& w) { ldouble p[4]; for (int i = 0; i < 4; i++) p[i] = q->p[i]; particle t(p, A()[w.x].m); return C(0); }, always}); }
  v.push_back({"new particle(NaN mass)", 1, [](World& w) { particle t(A()[w.x].p, NAN); return C(0); }, always});
  // spinors without a spin label
  auto massive = [](const World& w) { return w.mx(); }; auto massless = [](const World& w) { return !w.mx(); };
  v.push_back({"X.rangle()", 1, [](World& w) { return h2(w.X.rangle()); }, massive}); v.push_back({"X.langle()", 1, [](World& w) { return h2(w.X.langle()); }, massive});
  v.push_back({"X.lsquare()", 1, [](World& w) { return h2(w.X.lsquare()); }, massive}); v.push_back({"X.rsquare()", 1, [](World& w) { return h2(w.X.rsquare()); }, massive});
  auto lab = [&](int s, std::function<bool(const World&)> mis) {
    std::string t = "(" + std::to_string(s);
    v.push_back({"X.rangle" + t + ")", 1, [s](World& w) { return h2(w.X.rangle(s)); }, mis}); v.push_back({"X.langle" + t + ")", 1, [s](World& w) { return h2(w.X.langle(s)); }, mis});
    v.push_back({"X.lsquare" + t + ")", 1, [s](World& w) { return h2(w.X.lsquare(s)); }, mis}); v.push_back({"X.rsquare" + t + ")", 1, [s](World& w) { return h2(w.X.rsquare(s)); }, mis});
    for (int u = 0; u < 2; u++) { bool up = u; std::string t2 = t + (u ? ",UPPER)" : ",LOWER)");
      if (u && std::abs((long)s) != 1) continue;   // the upper form is the one above
      v.push_back({"X.rangle" + t2, 1, [s, up](World& w) { return h2(w.X.rangle(s, up)); }, mis}); v.push_back({"X.langle" + t2, 1, [s, up](World& w) { return h2(w.X.langle(s, up)); }, mis});
      v.push_back({"X.lsquare" + t2, 1, [s, up](World& w) { return h2(w.X.lsquare(s, up)); }, mis}); v.push_back({"X.rsquare" + t2, 1, [s, up](World& w) { return h2(w.X.rsquare(s, up)); }, mis}); }
  };
  lab(-1, massless); lab(1, massless);
  for (int s : {0, 2, -2, 3, -3, INT_MAX, INT_MIN}) lab(s, always);
  for (int u = 0; u < 2; u++) { bool up = u; std::string t = u ? "(UPPER)" : "(LOWER)";
    v.push_back({"X.rangle_matrix" + t, 1, [up](World& w) { return h4(w.X.rangle_matrix(up)); }, massless}); v.push_back({"X.langle_matrix" + t, 1, [up](World& w) { return h4(w.X.langle_matrix(up)); }, massless});
    v.push_back({"X.lsquare_matrix" + t, 1, [up](World& w) { return h4(w.X.lsquare_matrix(up)); }, massless}); v.push_back({"X.rsquare_matrix" + t, 1, [up](World& w) { return h4(w.X.rsquare_matrix(up)); }, massless}); }
  v.push_back({"X.rangle_matrix()", 1, [](World& w) { return h4(w.X.rangle_matrix()); }, massless}); v.push_back({"X.langle_matrix()", 1, [](World& w) { return h4(w.X.langle_matrix()); }, massless});
  v.push_back({"X.lsquare_matrix()", 1, [](World& w) { return h4(w.X.lsquare_matrix()); }, massless}); v.push_back({"X.rsquare_matrix()", 1, [](World& w) { return h4(w.X.rsquare_matrix()); }, massless});
  v.push_back({"X.umat()", 1, [](World& w) { return h4(w.X.umat()); }, never}); v.push_back({"X.lmat()", 1, [](World& w) { return h4(w.X.lmat()); }, never});
  // brackets: number of massive ends decides the number of spins
  auto ends = [](const World& w, int b) { return b == 0 ? (int)w.mx() + 1 : b == 1 ? 1 : b == 2 ? (w.mx() ? 2 : -1) : (int)w.mx(); };
  for (int b = 0; b < 4; b++) {
    std::string B = "S" + std::to_string(b) + ".v(";
    auto need = [ends, b](int n) { return [ends, b, n](const World& w) { int e = ends(w, b); return e != n; }; };
    auto skip = [b](const World& w) { return b == 2 && !w.mx(); };
    (void)skip;
    v.push_back({B + ")", 1, [b](World& w) { return w.S[b].v(); }, need(0)});
    for (int s : {-1, 1}) v.push_back({B + std::to_string(s) + ")", 1, [b, s](World& w) { return w.S[b].v(s); }, need(1)});
    for (int s : {-1, 1}) for (int t : {-1, 1}) v.push_back({B + std::to_string(s) + "," + std::to_string(t) + ")", 1, [b, s, t](World& w) { return w.S[b].v(s, t); }, need(2)});
    for (int s : {0, 2, -2, 3, -3, INT_MAX, INT_MIN}) {
      v.push_back({B + std::to_string(s) + ")", 1, [b, s](World& w) { return w.S[b].v(s); }, always});
      v.push_back({B + std::to_string(s) + ",1)", 1, [b, s](World& w) { return w.S[b].v(s, 1); }, always});
      v.push_back({B + "-1," + std::to_string(s) + ")", 1, [b, s](World& w) { return w.S[b].v(-1, s); }, always});
    }
  }
  // lower index on a massless end, every constructor arity; accepted only if X is massive
  for (int as = 0; as < 2; as++) for (int side = 0; side < 2; side++) for (int n = 0; n <= 6; n++) {
    bool a = as; 
    v.push_back({std::string(a ? "ANGLE" : "SQUARE") + " lower index on " + (side ? "right" : "left") + " X, " + std::to_string(n) + " momenta", 1,
      [a, side, n](World& w) {
        particle *X = &w.X, *Y = &w.Y; sproduct s;
        bool lo = LOWER;
        switch (n * 2 + side) {
          case 0: s = sproduct(a, X, lo, Y); break; case 1: s = sproduct(a, Y, X, lo); break;
          case 2: s = sproduct(a, X, lo, Y, Y); break; case 3: s = sproduct(a, Y, Y, X, lo); break;
          case 4: s = sproduct(a, X, lo, Y, Y, Y); break; case 5: s = sproduct(a, Y, Y, Y, X, lo); break;
          case 6: s = sproduct(a, X, lo, Y, Y, Y, Y); break; case 7: s = sproduct(a, Y, Y, Y, Y, X, lo); break;
          case 8: s = sproduct(a, X, lo, Y, Y, Y, Y, Y); break; case 9: s = sproduct(a, Y, Y, Y, Y, Y, X, lo); break;
          case 10: s = sproduct(a, X, lo, Y, Y, Y, Y, Y, Y); break; case 11: s = sproduct(a, Y, Y, Y, Y, Y, Y, X, lo); break;
          case 12: s = sproduct(a, X, lo, Y, Y, Y, Y, Y, Y, Y); break; default: s = sproduct(a, Y, Y, Y, Y, Y, Y, Y, X, lo);
        }
        s.update(); return s.v(1, 1); }, massless});
  }
  for (int mu : {-1, 4, 5, 100, INT_MAX, INT_MIN}) v.push_back({"X.get_momentum(" + std::to_string(mu) + ")", 1, [mu](World& w) { return C(w.X.get_momentum(mu)); }, always});
  v.push_back({"base class set_momenta", 1, [](World& w) { process P; P.set_momenta(A()[0].p, A()[0].p, A()[0].p, A()[0].p); return C(0); }, always});
  return v;
}
// reference value of a correct query in a fresh world whose X has momentum x
static Out& ref(int op, int x) {
  static std::map<std::pair<int, int>, Out> m;
  auto it = m.find({op, x});
  if (it == m.end()) { World w(x); Out o; try { o = {false, ops()[op].f(w)}; } catch (const std::exception&) { o = {true, 0}; } it = m.insert({{op, x}, o}).first; }
  return it->second;
}
static std::string pathname(int start, const std::vector<int>& p, size_t upto) { std::string s = "X starts as " + A()[start].name; for (size_t i = 0; i <= upto && i < p.size(); i++) s += "; " + ops()[p[i]].name; return s; }

// returns index at which the bound on misuses was exceeded
static size_t history(const std::string& key, int start, const std::vector<int>& path, int bound, bool sweep) {
  World w(start); int mis = 0;
  auto step = [&](int i, const std::string& hist) -> bool {
    const Op& o = ops()[i]; st().transitions++;
    if (o.kind == 1 && (!w.xok || (!w.mx() && o.name.compare(0, 2, "S2") == 0))) return true;   // likewise a bracket whose update was refused;   // X was left with a rejected momentum: not judged before it is set again
    bool must = o.misuse(w); bool threw = false; C z = 0; std::string what;
    try { z = o.f(w); } catch (const std::logic_error& e) { threw = true; what = e.what(); if (std::string(e.what()) == "bracket update") { fail(key, hist + ": wrong acceptance in bracket update"); return false; } }
    catch (const std::exception& e) { threw = true; what = e.what(); }
    if (threw != must) { fail(key, hist + (must ? ": misuse is not rejected, returns " + fmt(z) : ": correct use is rejected: " + what)); return false; }
    if (!must && o.kind == 1) { Out& r = ref(i, w.x); if (r.threw || !(std::abs(z - r.z) <= 1e-15L * (1 + std::abs(r.z)) * 1000)) { fail(key, hist + " = " + fmt(z) + ", in a fresh world " + fmt(r.z)); return false; } }
    outcome(mix(mix(i, must), w.x));
    return true;
  };
  for (size_t i = 0; i < path.size(); i++) {
    if (bound >= 0 && (ops()[path[i]].kind == 0 || w.xok) && ops()[path[i]].misuse(w) && ++mis > bound) return i;
    if (!step(path[i], key.empty() ? "" : pathname(start, path, i))) return i;
  }
  if (sweep) {
    if (!w.xok && !step((int)(path.size() % 4), "recovery")) return path.size();
    for (size_t q = 0; q < ops().size(); q++) if (ops()[q].kind == 1 && !ops()[q].misuse(w)) if (!step((int)q, pathname(start, path, path.size()) + "; then " + ops()[q].name)) return path.size();
  }
  st().traces++;
  return path.size();
}
static void elements(const std::string& key) {   // element access of matrices and vectors
  at(key); st().states++; st().traces++;
  cmatrix m(cdouble(1, 2), cdouble(3, 4), cdouble(5, 6), cdouble(7, 8)); cvector v(cdouble(1, 2), cdouble(3, 4));
  std::vector<int> I = {-3, -2, -1, 0, 1, 2, 3, 4, 100, INT_MAX, INT_MIN};
  for (int rep = 0; rep < 2; rep++) {
    for (int i : I) for (int j : I) {
      bool must = i < 0 || i > 1 || j < 0 || j > 1, threw = false; cdouble z = 0; st().transitions++;
      try { z = m.get(i, j); } catch (const std::exception&) { threw = true; }
      if (threw != must || (!threw && z != cdouble(1 + 4 * i + 2 * j, 2 + 4 * i + 2 * j))) { fail(key, "matrix element " + std::to_string(i) + "," + std::to_string(j)); return; }
    }
    for (int i : I) { bool must = i < 0 || i > 1, threw = false; cdouble z = 0; st().transitions++; try { z = v.get(i); } catch (const std::exception&) { threw = true; }
      if (threw != must || (!threw && z != cdouble(1 + 2 * i, 2 + 2 * i))) { fail(key, "vector element " + std::to_string(i)); return; } }
  }
}
static void run_case(const std::string& k) { if (k == "elements") { elements(k); return; } auto f = split(k, ':'); history(k, atoi(f[1].c_str()), ints(f[2]), -1, true); }

int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      int n = (int)ops().size(); int depth = opt().thorough ? 5 : LIGHT ? 3 : 4;
      st().counters["operations"] = 0;
      shards(64, [&](int sh) {
        if (sh == 0) elements("elements");
        auto walk = [&](const std::vector<int>& al, int D, int bound, int start, int a) {
          std::vector<int> ix(D, 0); ix[0] = a;
          while (true) {
            std::vector<int> path; for (int i : ix) path.push_back(al[i]);
            std::string key = "hist:" + std::to_string(start) + ":" + join(path); at(key);
            size_t stop = history(key, start, path, bound, true); st().states++;
            if (enough()) return;
            int k = (int)std::min(stop, (size_t)D - 1); for (int q = k + 1; q < D; q++) ix[q] = 0;
            while (k >= 1 && ++ix[k] == (int)al.size()) { ix[k] = 0; k--; }
            if (k < 1) break;
          }
        };
        std::vector<int> all; for (int i = 0; i < n; i++) all.push_back(i);
        // every history of length 2 over all operations, no bound on misuse
        for (int s = 0; s < 4; s++) for (int a = sh; a < n; a += 64) { walk(all, 2, 2, s, a); if (enough()) return; }
        // longer histories over a representative of each guard: state changes, the cached queries and one misuse of each kind
        std::vector<int> some; for (int i = 0; i < n; i++) { const std::string& m = ops()[i].name;
          bool take = ops()[i].kind == 0 ? (m[0] == 'X' && (m[1] == ':' || m.find("wrong e") != std::string::npos || m.find("NaN c") != std::string::npos)) : (m == "X.rangle()" || m == "X.rsquare()" || m == "X.rangle(-1)" || m == "X.lsquare(1,LOWER)" || m == "X.langle(3)" || m == "X.langle(1)" || m == "X.rangle(0,LOWER)" || m == "S0.v()" || m == "S0.v(1)" || m == "S0.v(1,1)" || m == "S0.v(1,-1)" || m == "S0.v(3,1)" || m == "S0.v(3)" || m == "S1.v(-1)" || m == "S1.v(-2)" || m == "S3.v()" || m == "S3.v(1)" || m == "S2.v(1,1)" || m == "S2.v(1)");
          if (take) some.push_back(i); }
        int c = 0;
        for (int s = 0; s < 4; s++) for (int a = 0; a < (int)some.size(); a++) { if (c++ % 64 != sh) continue; walk(some, depth, 2, s, a); if (enough()) return; }
      });
      sample(pathname(0, {0, 10, 20}, 2)); sample(pathname(1, {1, 15, 40}, 2)); st().counters["operations"] = n;
    },
    run_case,
    [] { return std::map<std::string, std::string>{{"operations", std::to_string(ops().size())}, {"histories", std::string("all of length 2 over all operations; length ") + (opt().thorough ? "5" : LIGHT ? "3" : "4") + " with at most two misuses over representatives; each followed by every correct query"}}; });
}
