// C10: rotations and boosts are the Lorentz transformations they are named after, for all arguments.
#include "mc.h"
#include "spinas.h"
#include "kin.h"
#include <quadmath.h>
using namespace mc; using namespace spinas;
typedef __float128 Q;
static const Q PIQ = M_PIq;

struct Ang { Q v; std::string name; };
static const std::vector<Ang>& angles() {
  static std::vector<Ang> a;
  if (a.empty()) {
    int n = opt().thorough ? 24 : 12;
    for (int k = -4 * n; k <= 4 * n; k++) a.push_back({(Q)(ldouble)(PIQ * k / n), std::to_string(k) + "*pi/" + std::to_string(n)});
    for (long double x : {1e-3L, -1e-3L, 1e-9L, -1e-9L, 1e-15L, 0.7L, -0.7L, 4.0L, 100.0L, -1000.25L, 3.15L, 3.13L, 6.28L, 6.29L}) a.push_back({(Q)x, fmts(x)});
    for (int k = 1; k <= 20; k++) for (int t = 0; t < 3; t++) { ldouble x = (ldouble)(PIQ*t) + powl(10,-k)*(k%2 ? 1 : -1); a.push_back({(Q)x, fmt(x)}); }     // close to 0, pi and 2 pi
    for (long double x : {1e4L, -1e5L, 1e6L}) a.push_back({(Q)x, fmts(x)});
  }
  return a;
}
static std::vector<Dir>& dirs() { static std::vector<Dir> d; if (d.empty()) d = all_dirs(opt().thorough ? 1 : 0); return d; }
static std::vector<Mom>& moms() {
  static std::vector<Mom> m;
  if (m.empty()) { auto s = shells(1); for (auto d : std::vector<Dir>{{0, 0, 1, 1}, {0, 0, -1, 1}, {1, 0, 0, 1}, {0, -1, 0, 1}, {1, 2, 2, 3}, {-2, 3, -6, 7}, {3, -4, 0, 5}}) for (int i : {0, 1, 3, 4}) m.push_back(make_mom(d, s[i], i == 3 ? 7 : 0)); m.push_back(rest_mom(4)); Mom z = rest_mom(0); m.push_back(z); }
  return m;
}
static ldouble size(const ldouble p[4]) { return std::abs(p[0]) + std::abs(p[1]) + std::abs(p[2]) + std::abs(p[3]); }
static std::string show(const ldouble p[4]) { return "{" + fmt(p[0]) + "," + fmt(p[1]) + "," + fmt(p[2]) + "," + fmt(p[3]) + "}"; }
static bool close(const ldouble g[4], const Q e[4], ldouble tol) { for (int i = 0; i < 4; i++) if (!(fabsq((Q)g[i] - e[i]) <= (Q)tol)) return false; return true; }
static std::string showq(const Q e[4]) { ldouble p[4]; for (int i = 0; i < 4; i++) p[i] = (ldouble)e[i]; return show(p); }

// right-handed rotation by th about the unit axis u
static void rotq(const Q p[4], const Q u[3], Q th, Q o[4]) {
  Q c = cosq(th), s = sinq(th), d = u[0] * p[1] + u[1] * p[2] + u[2] * p[3];
  Q x[3] = {u[1] * p[3] - u[2] * p[2], u[2] * p[1] - u[0] * p[3], u[0] * p[2] - u[1] * p[1]};
  o[0] = p[0]; for (int i = 0; i < 3; i++) o[i + 1] = p[i + 1] * c + x[i] * s + u[i] * d * (1 - c);
}
static void rot(int d, int a, int only = -1) {
  const Dir& D = dirs()[d]; ldouble u[3] = {(ldouble)D.x / D.n, (ldouble)D.y / D.n, (ldouble)D.z / D.n}; Q uq[3] = {(Q)D.x / D.n, (Q)D.y / D.n, (Q)D.z / D.n};
  const Ang& A = angles()[a]; ldouble th = (ldouble)A.v; ldouble u0[3] = {u[0], u[1], u[2]};
  for (int m = 0; m < (int)moms().size(); m++) {
    if (only >= 0 && m != only) continue;
    std::string key = "rot:" + join({d, a, m}); at(key); st().states++; st().traces++;
    const Mom& M = moms()[m]; ldouble p[4] = {M.p[0], M.p[1], M.p[2], M.p[3]}; Q pq[4] = {p[0], p[1], p[2], p[3]}, e[4];
    rotate_momentum(p, u, th); st().transitions++; rotq(pq, uq, A.v, e);
    ldouble tol = 4e-18L*EPSF * size(M.p);
    std::string w = "rotation of " + M.name + " about (" + std::to_string(D.x) + "," + std::to_string(D.y) + "," + std::to_string(D.z) + ")/" + std::to_string(D.n) + " by " + A.name;
    if (!close(p, e, tol)) { fail(key, w + " = " + show(p) + ", expected " + showq(e)); continue; }
    if (u[0] != u0[0] || u[1] != u0[1] || u[2] != u0[2] || th != (ldouble)A.v) { fail(key, w + " changes its arguments"); continue; }
    // composition: further rotations about the same axis add up
    for (int b : {1, 30, (int)angles().size() - 3}) { rotate_momentum(p, u, (ldouble)angles()[b].v); st().transitions++; Q f[4]; rotq(e, uq, angles()[b].v, f); if (!close(p, f, 2 * tol)) { fail(key, w + " and then by " + angles()[b].name + " = " + show(p) + ", expected " + showq(f)); break; } for (int i = 0; i < 4; i++) e[i] = f[i]; tol *= 2; }
    outcome(mix(hnum(p[1]), mix(hnum(p[2]), hnum(p[3]))));
  }
}
// speeds as exact rationals b/c with gamma = c/a
struct Sp { ldouble b, c, a; int e2; std::string name; };
static const std::vector<Sp>& speeds() {
  static std::vector<Sp> v = {{0, 1, 1, 0, "0"}, {3, 5, 4, 0, "3/5"}, {4, 5, 3, 0, "4/5"}, {15, 17, 8, 0, "15/17"}, {8, 17, 15, 0, "8/17"}, {255, 257, 32, 0, "255/257"}, {20, 101, 99, 0, "20/101"}, {32, 257, 255, 0, "32/257"}, {2048, 1048577, 1048575, 0, "0.00195"}, {1048575, 1048577, 2048, 0, "1-1.9e-6"},
                              {1, 1, 1, -40, "2^-40"}, {1, 1, 1, -100, "2^-100"}, {1, 1, 1, -9000, "2^-9000"}};
  if (v.size() == 13) {
    for (int k=1;k<=70;k++) if (k != 40) v.push_back({1, 1, 1, -k, "2^-" + std::to_string(k)});
    for (int k=2;k<=(EPSF > 1 ? 20 : 50);k++) v.push_back({std::ldexp((ldouble)1,k)-1, std::ldexp((ldouble)1,k), 0, 0, "1-2^-" + std::to_string(k)});
  }
  return v;
}
static void boostq(const Q p[4], const Q n[3], Q v, Q g, Q o[4]) {
  Q pl = n[0] * p[1] + n[1] * p[2] + n[2] * p[3]; o[0] = g * (p[0] - v * pl); Q npl = g * (pl - v * p[0]);
  for (int i = 0; i < 3; i++) o[i + 1] = p[i + 1] + n[i] * (npl - pl);
}
static void boost(int d, int s, int only = -1) {
  const Dir& D = dirs()[d]; const Sp& S = speeds()[s]; Q n[3] = {(Q)D.x / D.n, (Q)D.y / D.n, (Q)D.z / D.n};
  Q V = ldexpq((Q)S.b / S.c, S.e2), G = S.e2 || !S.a ? 1 / sqrtq(1 - V * V) : (Q)S.c / S.a;
  ldouble v[3], w[3]; for (int i = 0; i < 3; i++) { v[i] = (ldouble)(V * n[i]); w[i] = -v[i]; } ldouble v0[3] = {v[0], v[1], v[2]}; ldouble g = (ldouble)G;
  for (int m = 0; m < (int)moms().size(); m++) {
    if (only >= 0 && m != only) continue;
    std::string key = "boost:" + join({d, s, m}); at(key); st().states++; st().traces++;
    const Mom& M = moms()[m]; ldouble p[4] = {M.p[0], M.p[1], M.p[2], M.p[3]}; Q pq[4] = {p[0], p[1], p[2], p[3]}, e[4];
    boost_momentum(p, v); st().transitions++; boostq(pq, n, V, G, e);
    ldouble tol = 8e-18L*EPSF * size(M.p) * g * g * g;    // the rounding of v is amplified by gamma^2
    std::string t = "boost of " + M.name + " with speed " + S.name + " along (" + std::to_string(D.x) + "," + std::to_string(D.y) + "," + std::to_string(D.z) + ")/" + std::to_string(D.n);
    if (!close(p, e, tol)) { fail(key, t + " = " + show(p) + ", expected " + showq(e)); continue; }
    if (v[0] != v0[0] || v[1] != v0[1] || v[2] != v0[2]) { fail(key, t + " changes its arguments"); continue; }
    boost_momentum(p, w); st().transitions++; if (!close(p, pq, tol * g * g * 4)) { fail(key, t + " is not undone by the opposite velocity: " + show(p) + " instead of " + M.name); continue; }
    // second boost along another direction
    const Dir& E = dirs()[(d * 7 + 3) % dirs().size()]; Q n2[3] = {(Q)E.x / E.n, (Q)E.y / E.n, (Q)E.z / E.n}; ldouble v2[3]; for (int i = 0; i < 3; i++) v2[i] = (ldouble)((Q)3 / 5 * n2[i]);
    ldouble r[4] = {M.p[0], M.p[1], M.p[2], M.p[3]}; boost_momentum(r, v); boost_momentum(r, v2); st().transitions += 2; Q f[4]; boostq(e, n2, (Q)3 / 5, (Q)5 / 4, f); if (!close(r, f, tol * 8)) { fail(key, t + " and then 3/5 along another direction = " + show(r) + ", expected " + showq(f)); continue; }
    outcome(mix(hnum(r[0]), mix(hnum(r[1]), hnum(r[3]))));
  }
}
static void rest(int i, int only = -1) {   // boost by a particle's own velocity
  const Dir& D = dirs()[i]; auto sh = shells(opt().thorough ? 2 : 1);
  for (int s = 1; s < (int)sh.size(); s++) {
    if (only >= 0 && s != only) continue;
    std::string key = "rest:" + join({i, s}); at(key); st().states++; st().traces++; st().transitions++;
    Mom M = make_mom(D, sh[s], 0); ldouble p[4] = {M.p[0], M.p[1], M.p[2], M.p[3]}, v[3] = {p[1] / p[0], p[2] / p[0], p[3] / p[0]}; boost_momentum(p, v);
    ldouble g = M.p[0] / M.m; Q e[4] = {M.m, 0, 0, 0}; if (!close(p, e, 8e-18L*EPSF * size(M.p) * g * g * g)) fail(key, "boost of " + M.name + " by its own velocity = " + show(p));
    else outcome(hnum(p[0]));
  }
}
static void run_case(const std::string& k) { auto f = split(k, ':'); auto v = ints(f[1]); if (f[0] == "rot") rot(v[0], v[1], v[2]); else if (f[0] == "boost") boost(v[0], v[1], v[2]); else rest(v[0], v[1]); }
int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      shards(64, [&](int sh) {
        for (int d = sh; d < (int)dirs().size() && !enough(); d += 64) { for (int a = 0; a < (int)angles().size() && !enough(); a++) rot(d, a); for (int s = 0; s < (int)speeds().size(); s++) boost(d, s); rest(d); }
        if (sh == 0) { sample("rotation of " + moms()[5].name + " about axis 0 by " + angles()[3].name); sample("boost of " + moms()[9].name + " with speed " + speeds()[5].name); sample("boost of every massive momentum by its own velocity"); }
      });
    },
    run_case,
    [] { return std::map<std::string, std::string>{{"axes", std::to_string(dirs().size())}, {"angles", std::to_string(angles().size())}, {"speeds", std::to_string(speeds().size())}, {"momenta", std::to_string(moms().size())}}; });
}
