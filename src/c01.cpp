// C01: spinor relations of every on-shell particle.   C02: generators.
#include "mc.h"
#include "spinas.h"
#include "kin.h"
using namespace mc; using namespace spinas;
typedef std::complex<long double> C;

struct V2 { C a[2]; };
struct M2 { C a[2][2]; };
static V2 V(const cvector& v) { return {{v.get(0), v.get(1)}}; }
static M2 M(const cmatrix& m) { return {{{m.get(0, 0), m.get(0, 1)}, {m.get(1, 0), m.get(1, 1)}}}; }
static C dotv(const V2& x, const V2& y) { return x.a[0] * y.a[0] + x.a[1] * y.a[1]; }
static M2 outerv(const V2& x, const V2& y) { M2 r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.a[i][j] = x.a[i] * y.a[j]; return r; }
static M2 mm(const M2& x, const M2& y) { M2 r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.a[i][j] = x.a[i][0] * y.a[0][j] + x.a[i][1] * y.a[1][j]; return r; }
static M2 add(const M2& x, const M2& y, C f = 1) { M2 r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.a[i][j] = x.a[i][j] + f * y.a[i][j]; return r; }
static M2 sc(const M2& x, C f) { M2 r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.a[i][j] = x.a[i][j] * f; return r; }
static V2 mv(const M2& x, const V2& y) { return {{x.a[0][0] * y.a[0] + x.a[0][1] * y.a[1], x.a[1][0] * y.a[0] + x.a[1][1] * y.a[1]}}; }
static V2 vm(const V2& y, const M2& x) { return {{y.a[0] * x.a[0][0] + y.a[1] * x.a[1][0], y.a[0] * x.a[0][1] + y.a[1] * x.a[1][1]}}; }
static V2 scv(const V2& x, C f) { return {{x.a[0] * f, x.a[1] * f}}; }
static V2 conjv(const V2& x) { return {{std::conj(x.a[0]), std::conj(x.a[1])}}; }
static long double nrm(const M2& x) { long double r = 0; for (auto& q : x.a) for (auto& z : q) { long double n = std::abs(z); if (!(n <= r)) r = n; } return r; }

struct Ctx { const std::string& key; bool bad = false;
  void need(bool ok, const std::string& what) { st().transitions++; if (!ok && !bad) { bad = true; fail(key, what); } }
  void eq(const C& x, const C& y, long double tol, const char* what) { need(std::abs(x - y) <= tol, std::string(what) + ": " + fmt(x) + " != " + fmt(y) + " (tol " + fmts(tol) + ")"); }
  void eq(const V2& x, const V2& y, long double tol, const char* what) { for (int i = 0; i < 2; i++) eq(x.a[i], y.a[i], tol, what); }
  void eq(const M2& x, const M2& y, long double tol, const char* what) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) eq(x.a[i][j], y.a[i][j], tol, what); }
};

static const long double T = 1e-17L*EPSF;

static void relations(const std::string& key, const Mom& q, int how) {
  Ctx X{key};
  ldouble E = q.p[0], m = q.m;
  particle P;
  // the three ways of building a particle
  if (how == 0) P = particle(q.p, q.m);
  else if (how == 1) { P = particle(q.m); P.set_momentum(q.p); }
  else { P = particle(); P.set_mass(q.m); P.set_momentum(q.p); }
  X.need(P.mass() == m && P.get_mass() == m, "mass accessor");
  for (int i = 0; i < 4; i++) X.need(P.get_momentum(i) == q.p[i], "momentum accessor");
  M2 U{{{C(q.p[0] - q.p[3]), C(-q.p[1], q.p[2])}, {C(-q.p[1], -q.p[2]), C(q.p[0] + q.p[3])}}};
  M2 L{{{C(q.p[0] + q.p[3]), C(q.p[1], -q.p[2])}, {C(q.p[1], q.p[2]), C(q.p[0] - q.p[3])}}};
  long double tE = T * E, tr = T * std::sqrt(E);
  X.eq(M(P.umat()), U, tE, "upper momentum matrix"); X.eq(M(P.lmat()), L, tE, "lower momentum matrix");
  X.need(std::abs(P.dot(P) - m * m) <= T * E * E, "p.p != m^2");
  if (E <= 8192) X.need(P.test_angles(), "test_angles() is false");
  if (m == 0) {
    V2 ra = V(P.rangle()), la = V(P.langle()), ls = V(P.lsquare()), rs = V(P.rsquare());
    X.eq(outerv(ra, ls), L, tE, "|1>[1| != p lower"); X.eq(outerv(rs, la), U, tE, "|1]<1| != p upper");
    X.eq(dotv(la, ra), 0, tE, "<11>"); X.eq(dotv(ls, rs), 0, tE, "[11]");
    X.eq(conjv(ra), ls, tr, "|1>* != [1|"); X.eq(conjv(la), rs, tr, "<1|* != |1]");
    X.eq(la, V2{{ra.a[1], -ra.a[0]}}, tr, "<1| != epsilon |1>"); X.eq(rs, V2{{ls.a[1], -ls.a[0]}}, tr, "|1] != epsilon [1|");
    long double t3 = tE * std::sqrt(E);
    X.eq(mv(U, ra), V2{{0, 0}}, t3, "p|1>"); X.eq(vm(ls, U), V2{{0, 0}}, t3, "[1|p"); X.eq(mv(L, rs), V2{{0, 0}}, t3, "p|1]"); X.eq(vm(la, L), V2{{0, 0}}, t3, "<1|p");
    uint64_t h = hstr("m0"); for (int i = 0; i < 2; i++) h = mix(mix(h, hnum(ra.a[i].real())), hnum(ra.a[i].imag())); outcome(h);
    return;
  }
  // [kind][upper?1:0][spin +1 ?1:0]
  V2 ra[2][2], la[2][2], ls[2][2], rs[2][2];
  for (int u = 0; u < 2; u++) for (int s = 0; s < 2; s++) {
    int sp = s ? 1 : -1; bool up = u;
    ra[u][s] = V(P.rangle(sp, up)); la[u][s] = V(P.langle(sp, up)); ls[u][s] = V(P.lsquare(sp, up)); rs[u][s] = V(P.rsquare(sp, up));
  }
  for (int s = 0; s < 2; s++) {
    int sp = s ? 1 : -1;
    X.eq(V(P.rangle(sp)), ra[1][s], 0, "|1>^I default index"); X.eq(V(P.langle(sp)), la[1][s], 0, "<1|^I default index");
    X.eq(V(P.lsquare(sp)), ls[1][s], 0, "[1|^I default index"); X.eq(V(P.rsquare(sp)), rs[1][s], 0, "|1]^I default index");
  }
  // matrix forms: columns are spins -1, +1
  for (int u = 0; u < 2; u++) {
    V2(*k[4])[2] = {ra, la, ls, rs};
    M2 f[4] = {M(P.rangle_matrix((bool)u)), M(P.langle_matrix((bool)u)), M(P.lsquare_matrix((bool)u)), M(P.rsquare_matrix((bool)u))};
    for (int q2 = 0; q2 < 4; q2++) for (int i = 0; i < 2; i++) for (int s = 0; s < 2; s++) X.eq(f[q2].a[i][s], k[q2][u][s].a[i], 0, "matrix form");
  }
  X.eq(M(P.rangle_matrix()), M(P.rangle_matrix(UPPER)), 0, "rangle_matrix default"); X.eq(M(P.langle_matrix()), M(P.langle_matrix(UPPER)), 0, "langle_matrix default");
  X.eq(M(P.lsquare_matrix()), M(P.lsquare_matrix(UPPER)), 0, "lsquare_matrix default"); X.eq(M(P.rsquare_matrix()), M(P.rsquare_matrix(UPPER)), 0, "rsquare_matrix default");
  // lowering: X_- = X^+, X_+ = -X^-
  V2(*k[4])[2] = {ra, la, ls, rs};
  const char* nm[4] = {"|1>", "<1|", "[1|", "|1]"};
  for (int q2 = 0; q2 < 4; q2++) { X.eq(k[q2][0][0], k[q2][1][1], tr, nm[q2]); X.eq(k[q2][0][1], scv(k[q2][1][0], -1), tr, nm[q2]); }
  for (int u = 0; u < 2; u++) for (int s = 0; s < 2; s++) {
    X.eq(la[u][s], V2{{ra[u][s].a[1], -ra[u][s].a[0]}}, tr, "<1|^I != epsilon |1>^I");
    X.eq(rs[u][s], V2{{ls[u][s].a[1], -ls[u][s].a[0]}}, tr, "|1]^I != epsilon [1|^I");
    X.eq(conjv(ra[1][s]), ls[0][s], tr, "(|1>^I)* != [1|_I"); X.eq(conjv(la[1][s]), rs[0][s], tr, "(<1|^I)* != |1]_I");
    long double t3 = tE * std::sqrt(E);
    X.eq(mv(U, ra[u][s]), scv(rs[u][s], -m), t3, "p|1> != -m|1]"); X.eq(vm(la[u][s], L), scv(ls[u][s], m), t3, "<1|p != m[1|");
    X.eq(mv(L, rs[u][s]), scv(ra[u][s], -m), t3, "p|1] != -m|1>"); X.eq(vm(ls[u][s], U), scv(la[u][s], m), t3, "[1|p != m<1|");
  }
  for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) {
    C ang = a == b ? 0 : (a == 0 ? -m : m);
    X.eq(dotv(la[1][a], ra[1][b]), ang, tE, "<11>^IJ"); X.eq(dotv(ls[1][a], rs[1][b]), -ang, tE, "[11]^IJ");
    X.eq(dotv(la[0][a], ra[0][b]), ang, tE, "<11>_IJ"); X.eq(dotv(ls[0][a], rs[0][b]), -ang, tE, "[11]_IJ");
  }
  X.eq(add(outerv(ra[1][0], ls[0][0]), outerv(ra[1][1], ls[0][1])), L, tE, "|1>^I[1|_I != p");
  X.eq(add(outerv(ra[0][0], ls[1][0]), outerv(ra[0][1], ls[1][1])), sc(L, -1), tE, "|1>_I[1|^I != -p");
  X.eq(add(outerv(rs[0][0], la[1][0]), outerv(rs[0][1], la[1][1])), U, tE, "|1]_I<1|^I != p");
  X.eq(add(outerv(rs[1][0], la[0][0]), outerv(rs[1][1], la[0][1])), sc(U, -1), tE, "|1]^I<1|_I != -p");
  uint64_t h = hstr("m"); for (int s = 0; s < 2; s++) for (int i = 0; i < 2; i++) h = mix(mix(h, hnum(ra[1][s].a[i].real())), hnum(ra[1][s].a[i].imag())); outcome(h);
}

static void generators(const std::string& key, const Mom& q) {
  Ctx X{key};
  particle P(q.p, q.m);
  ldouble m = q.m; long double pm = std::sqrt(q.p[1] * q.p[1] + q.p[2] * q.p[2] + q.p[3] * q.p[3]);
  M2 g[4][3] = {{M(P.lorentz_j3_lu()), M(P.lorentz_jp_lu()), M(P.lorentz_jm_lu())},
                {M(P.lorentz_j3_ul()), M(P.lorentz_jp_ul()), M(P.lorentz_jm_ul())},
                {M(P.lorentz_j3_lu_dot()), M(P.lorentz_jp_lu_dot()), M(P.lorentz_jm_lu_dot())},
                {M(P.lorentz_j3_ul_dot()), M(P.lorentz_jp_ul_dot()), M(P.lorentz_jm_ul_dot())}};
  M2 S[2][3] = {{M(P.spin_j3_lu()), M(P.spin_jp_lu()), M(P.spin_jm_lu())}, {M(P.spin_j3_ul()), M(P.spin_jp_ul()), M(P.spin_jm_ul())}};
  // J3 is the helicity operator along the momentum
  if (pm > 0) {
    C x = q.p[1] / pm, y = C(0, 1) * (q.p[2] / pm), z = q.p[3] / pm;
    M2 h{{{z * .5L, (x - y) * .5L}, {(x + y) * .5L, -z * .5L}}}, ht{{{z * .5L, (x + y) * .5L}, {(x - y) * .5L, -z * .5L}}};
    X.eq(g[0][0], sc(h, -1), T, "J3 on |1>"); X.eq(g[1][0], ht, T, "J3 on <1|"); X.eq(g[2][0], ht, T, "J3 on [1|"); X.eq(g[3][0], sc(h, -1), T, "J3 on |1]");
  }
  uint64_t hh = hstr("g"); for (auto& a : g) for (auto& b : a) for (auto& r : b.a) for (auto& z : r) hh = mix(mix(hh, hnum(z.real())), hnum(z.imag())); outcome(hh);
  if (m == 0) {
    V2 s[4] = {V(P.rangle()), V(P.langle()), V(P.lsquare()), V(P.rsquare())};
    const char* nm[4] = {"|1>", "<1|", "[1|", "|1]"};
    for (int k = 0; k < 4; k++) {
      long double n = std::sqrt(q.p[0]) * 2;
      X.eq(mv(g[k][0], s[k]), scv(s[k], k < 2 ? -0.5L : 0.5L), T * n, (std::string("J3 ") + nm[k]).c_str());
      X.eq(mv(g[k][1], s[k]), V2{{0, 0}}, T * n, (std::string("J+ ") + nm[k]).c_str());
      X.eq(mv(g[k][2], s[k]), V2{{0, 0}}, T * n, (std::string("J- ") + nm[k]).c_str());
    }
    return;
  }
  // massive: acting with Lorentz generators equals acting on the spin index
  M2 Y[4][2] = {{M(P.rangle_matrix(LOWER)), M(P.rangle_matrix(UPPER))}, {M(P.langle_matrix(LOWER)), M(P.langle_matrix(UPPER))},
                {M(P.lsquare_matrix(LOWER)), M(P.lsquare_matrix(UPPER))}, {M(P.rsquare_matrix(LOWER)), M(P.rsquare_matrix(UPPER))}};
  const char* nm[4] = {"|1>", "<1|", "[1|", "|1]"}; const char* jn[3] = {"J3", "J+", "J-"};
  for (int k = 0; k < 4; k++) for (int u = 0; u < 2; u++) for (int j = 0; j < 3; j++) {
    M2 l = mm(g[k][j], Y[k][u]), r = mm(Y[k][u], S[u ? 0 : 1][j]);
    long double tol = T * (nrm(g[k][j]) * nrm(Y[k][u]) + nrm(Y[k][u]) + 1e-300L);
    X.eq(l, r, tol, (std::string(jn[j]) + " on " + nm[k] + (u ? " upper" : " lower") + " does not act as spin").c_str());
  }
  auto comm = [](const M2& a, const M2& b) { return add(mm(a, b), mm(b, a), -1); };
  auto algebra = [&](const M2* J, const char* what) {
    long double n = nrm(J[1]) * nrm(J[2]);
    X.eq(comm(J[0], J[1]), J[1], T * (1 + nrm(J[1])), (std::string("[J3,J+] != J+ ") + what).c_str());
    X.eq(comm(J[0], J[2]), sc(J[2], -1), T * (1 + nrm(J[2])), (std::string("[J3,J-] != -J- ") + what).c_str());
    X.eq(comm(J[1], J[2]), sc(J[0], 2), T * (1 + n), (std::string("[J+,J-] != 2J3 ") + what).c_str());
  };
  for (int k = 0; k < 4; k++) algebra(g[k], nm[k]);
  for (int u = 0; u < 2; u++) algebra(S[u], u ? "spin lower" : "spin upper");
}

// pair relations of two massless or massive particles
static void pairrel(const std::string& key, const Mom& a, const Mom& b) {
  Ctx X{key};
  particle P(a.p, a.m), Q(b.p, b.m);
  long double d = (long double)a.p[0] * b.p[0] - (long double)a.p[1] * b.p[1] - (long double)a.p[2] * b.p[2] - (long double)a.p[3] * b.p[3];
  long double t = T * a.p[0] * b.p[0] * 4;
  X.eq(P.dot(Q), d, t, "dot"); X.eq(Q.dot(P), d, t, "dot reversed");
  X.eq(P.get_momentum(0), a.p[0], 0, "dot changed a momentum");
  M2 ac = add(mm(M(P.umat()), M(Q.lmat())), mm(M(Q.umat()), M(P.lmat())));
  X.eq(ac, M2{{{2 * d, 0}, {0, 2 * d}}}, t, "anticommutator of momentum matrices");
  if (a.m == 0 && b.m == 0) X.eq(dotv(V(P.langle()), V(Q.rangle())) * dotv(V(Q.lsquare()), V(P.rsquare())), 2 * d, t, "<12>[21] != 2p1.p2");
  outcome(mix(hnum(d), hstr("d")));
}

static std::vector<Mom>& moms() {
  static std::vector<Mom> v;
  if (!v.empty()) return v;
  int lv = opt().thorough ? 2 : 1;
  std::vector<int> scales = {0, -20, 9, 40}; if (opt().thorough) { scales.push_back(-60); scales.push_back(-9); scales.push_back(17); scales.push_back(100); }
  for (auto& d : all_dirs(lv)) for (auto& s : shells(lv)) for (int k : scales) v.push_back(make_mom(d, s, k));
  for (ldouble m : {1e-9L, 0.000511L, 1.L, 4.L, 91.1876L, 1e6L, 1e12L}) v.push_back(rest_mom(m));
  { Mom z = rest_mom(3); z.p[1] = -0.L; z.p[2] = -0.L; z.p[3] = -0.L; z.name = "rest(-0)"; v.push_back(z); }
  // momenta rounded as a user's would be
  std::vector<long double> g = {0, -0.L, 1e-9L, -1e-9L, 1e-15L, -1e-30L, 0.1L, -0.7L, 3, -3, 1234.5L, -777.7L};
  if (opt().thorough) for (long double x : {1e-2500L, -1e-300L, 0.333L, -0.1L, 45.6L, -45.6L, 1e7L / 3, -1e9L / 7}) g.push_back(x);
  for (auto x : g) for (auto y : g) for (auto z : g) for (long double m : {0.L, 1e-9L, 1e-5L, 0.000511L, 0.1L, 80.4L}) {
    Mom q; q.p[1] = x; q.p[2] = y; q.p[3] = z; q.m = m; q.p[0] = std::sqrt(x * x + y * y + z * z + m * m);
    if (q.p[0] == 0) continue;
    q.name = "m=" + fmts(m) + " p=(" + fmts(x) + "," + fmts(y) + "," + fmts(z) + ")"; v.push_back(q);
  }
  return v;
}
static std::vector<Mom>& few() {
  static std::vector<Mom> v;
  if (!v.empty()) return v;
  auto sh = shells(0);
  for (auto& d : all_dirs(opt().thorough ? 1 : 0)) { v.push_back(make_mom(d, sh[0], 0)); v.push_back(make_mom(d, sh[1], 1)); if (opt().thorough) v.push_back(make_mom(d, sh[2], -3)); }
  v.push_back(rest_mom(2));
  return v;
}

static void one(const std::string& kind, int i, int j) {
  std::string key = kind + ":" + std::to_string(i) + ":" + std::to_string(j);
  at(key);
  size_t before = st().violations.size();
  try {
    if (kind == "pair") pairrel(key, few()[i], few()[j]);
    else if (opt().prop == "C02") generators(key, moms()[i]);
    else relations(key, moms()[i], j);
  } catch (const std::exception& e) { fail(key, std::string("unexpected exception: ") + e.what()); }
  st().states++; st().traces++;
  if (st().violations.size() > before) st().violations.back().msg += "  [momentum " + (kind == "pair" ? few()[i].name + " and " + few()[j].name : moms()[i].name) + "]";
  if (st().states % 2503 == 1) sample(key + " " + (kind == "pair" ? few()[i].name + " . " + few()[j].name : moms()[i].name));
}

int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      shards(8, [](int sh) {
        for (size_t i = sh; i < moms().size(); i += 8) { for (int how = 0; how < (opt().prop == "C02" ? 1 : 3); how++) one("one", (int)i, how); if (enough()) return; }
        if (opt().prop == "C01") for (size_t i = sh; i < few().size(); i += 8) for (size_t j = 0; j < few().size(); j++) { one("pair", (int)i, (int)j); if (enough()) return; }
      });
    },
    [](const std::string& k) { auto f = split(k, ':'); one(f[0], atoi(f[1].c_str()), atoi(f[2].c_str())); },
    [] { return std::map<std::string, std::string>{{"momenta", std::to_string(moms().size())}, {"pairs", std::to_string(few().size()) + "^2"},
          {"directions", std::to_string(all_dirs(opt().thorough ? 2 : 1).size()) + " exact directions plus a grid of rounded components"}}; });
}
