// C08: 2x2 complex algebra, every operator and overload, against exact Gaussian integers.
#include "mc.h"
#include "spinas.h"
#include <climits>
using namespace mc; using namespace spinas;

struct G { long long r, i; };   // Gaussian integer
static G operator+(G a, G b) { return {a.r + b.r, a.i + b.i}; }
static G operator-(G a, G b) { return {a.r - b.r, a.i - b.i}; }
static G operator-(G a) { return {-a.r, -a.i}; }
static G operator*(G a, G b) { return {a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; }
static bool operator==(G a, G b) { return a.r == b.r && a.i == b.i; }
typedef std::array<G, 4> M; typedef std::array<G, 2> W;
static M add(const M& a, const M& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]}; }
static M sub(const M& a, const M& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]}; }
static M neg(const M& a) { return {-a[0], -a[1], -a[2], -a[3]}; }
static M mul(const M& a, const M& b) { return {a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]}; }
static M sc(const M& a, G z) { return {a[0] * z, a[1] * z, a[2] * z, a[3] * z}; }

static const std::vector<G>& AL() { static std::vector<G> a = {{0, 0}, {1, 0}, {0, -1}, {-2, 1}, {3, 2}, {-1, 0}, {0, 3}, {1, -4}, {-3, -3}}; return a; }
static std::string str(const M& m) { std::string s = "{"; for (auto& z : m) s += "(" + std::to_string(z.r) + "," + std::to_string(z.i) + ")"; return s + "}"; }
static std::string str(const W& m) { std::string s = "{"; for (auto& z : m) s += "(" + std::to_string(z.r) + "," + std::to_string(z.i) + ")"; return s + "}"; }

// every real number is multiplied by 2^k, so that exactness holds at every scale
static cdouble cd(G z, int k) { return cdouble(std::ldexp((ldouble)z.r, k), std::ldexp((ldouble)z.i, k)); }
static cmatrix cm(const M& m, int k) { return cmatrix(cd(m[0], k), cd(m[1], k), cd(m[2], k), cd(m[3], k)); }
static cvector cv(const W& v, int k) { return cvector(cd(v[0], k), cd(v[1], k)); }
static std::string cur;
static std::string key_;
static bool ok(const cmatrix& g, const M& e, int k, const char* what) {
  st().transitions++;
  for (int i = 0; i < 4; i++) if (!(g.get(i / 2, i % 2) == cd(e[i], k))) { fail(key_, cur + ": " + what + " element " + std::to_string(i / 2) + std::to_string(i % 2) + " is " + fmt(g.get(i / 2, i % 2)) + ", expected " + fmt(cd(e[i], k))); return false; }
  return true;
}
static bool ok(const cvector& g, const W& e, int k, const char* what) {
  st().transitions++;
  for (int i = 0; i < 2; i++) if (!(g.get(i) == cd(e[i], k))) { fail(key_, cur + ": " + what + " component " + std::to_string(i) + " is " + fmt(g.get(i)) + ", expected " + fmt(cd(e[i], k))); return false; }
  return true;
}
static bool ok(const cdouble& g, G e, int k, const char* what) { st().transitions++; if (!(g == cd(e, k))) { fail(key_, cur + ": " + what + " is " + fmt(g) + ", expected " + fmt(cd(e, k))); return false; } return true; }
static bool tr(bool b, const char* what) { st().transitions++; if (!b) fail(key_, cur + ": " + what); return b; }
static bool near(const cmatrix& g, const M& e, cdouble d, int k, const char* what) {  // quotient
  st().transitions++;
  for (int i = 0; i < 4; i++) { cdouble q = g.get(i / 2, i % 2) * d, x = cd(e[i], k); if (!(std::abs(q - x) <= 1e-17L*EPSF * (std::abs(x)))) { fail(key_, cur + ": " + what + " element " + std::to_string(i / 2) + std::to_string(i % 2) + " times the divisor is " + fmt(q) + ", expected " + fmt(x)); return false; } }
  return true;
}

// a difference no rounding of numbers of order one explains, and one that rounding does explain
static const ldouble FINE = EPSF > 1 ? 1e-7L : 1e-11L, ROUND = 1e-16L*EPSF;
static ldouble fdet(const cmatrix& m) { return det(m); }
// operations on one pair of matrices at one scale
static void pair(const M& a, const M& b, int k) {
  key_ = "pair:" + std::to_string(k) + ":"; for (auto& z : a) key_ += std::to_string(z.r) + "," + std::to_string(z.i) + ","; for (auto& z : b) key_ += std::to_string(z.r) + "," + std::to_string(z.i) + ",";
  at(key_); cur = str(a) + " " + str(b) + " *2^" + std::to_string(k); st().states++; st().traces++;
  cmatrix A = cm(a, k), B = cm(b, k);
  if (!ok(A + B, add(a, b), k, "A+B") || !ok(A - B, sub(a, b), k, "A-B") || !ok(A * B, mul(a, b), 2 * k, "A*B")) return;
  { cmatrix C = A; cmatrix& r = (C += B); if (!ok(C, add(a, b), k, "A+=B") || !tr(&r == &C, "+= returns its operand")) return; }
  { cmatrix C = A; cmatrix& r = (C -= B); if (!ok(C, sub(a, b), k, "A-=B") || !tr(&r == &C, "-= returns its operand")) return; }
  { cmatrix C = A; cmatrix& r = (C *= B); if (!ok(C, mul(a, b), 2 * k, "A*=B") || !tr(&r == &C, "*= returns its operand")) return; }
  if (!ok(A, a, k, "A afterwards") || !ok(B, b, k, "B afterwards")) return;
  bool eq = a == b;
  if (!tr((A == B) == eq, "A==B") || !tr((A != B) == !eq, "A!=B")) return;
  outcome(mix(hnum((A * B).get(0, 1).real()), hnum((A * B).get(1, 0).imag())));
}
static void single(const M& a, int k) {
  key_ = "single:" + std::to_string(k) + ":"; for (auto& z : a) key_ += std::to_string(z.r) + "," + std::to_string(z.i) + ",";
  at(key_); cur = str(a) + " *2^" + std::to_string(k); st().states++; st().traces++;
  cmatrix A = cm(a, k);
  if (!ok(A, a, k, "constructed") || !ok(-A, neg(a), k, "-A")) return;
  { cmatrix C = A; C += C; if (!ok(C, add(a, a), k, "A+=A")) return; }
  { cmatrix C = A; C -= C; if (!ok(C, sub(a, a), k, "A-=A")) return; }
  { cmatrix C = A; C *= C; if (!ok(C, mul(a, a), 2 * k, "A*=A")) return; }
  if (!ok(A * A, mul(a, a), 2 * k, "A*A") || !ok(A + A, add(a, a), k, "A+A") || !ok(A - A, sub(a, a), k, "A-A")) return;
  { cmatrix C = A; C = C; if (!ok(C, a, k, "A=A")) return; cmatrix D(C); if (!ok(D, a, k, "copy")) return; }
  G det = a[0] * a[3] - a[1] * a[2];
  if (k >= -10 || det.i == 0) {
    if (det.i == 0) { if (!ok(cdouble(A.get_det(), 0), det, 2 * k, "get_det") || !ok(cdouble(fdet(A), 0), det, 2 * k, "det")) return; }
    else for (int f = 0; f < 2; f++) { bool threw = false; try { f ? fdet(A) : A.get_det(); } catch (const std::exception&) { threw = true; } if (!tr(threw, "complex determinant is refused")) return; }
  }
  if (k == 0 && det.i == 0) for (int i = 0; i < 4; i++) for (ldouble d : {FINE, -FINE, ROUND, -ROUND}) {    // small imaginary parts of the determinant
    G c = i == 0 || i == 3 ? a[3-i] : -a[3-i]; if (!c.r) continue;
    cdouble x[4]; for (int q = 0; q < 4; q++) x[q] = cd(a[q], 0); x[i] += cdouble(0, d); cmatrix D(x[0], x[1], x[2], x[3]);
    bool threw = false; ldouble v = 0; try { v = D.get_det(); } catch (const std::exception&) { threw = true; }
    if (std::abs(d) == FINE ? !tr(threw, "determinant with a small imaginary part is refused") : !tr(!threw && std::abs(v - det.r) <= 100*ROUND, "determinant with an imaginary part due to rounding is accepted")) return;
  }
  if (k <= 0) for (int i = 0; i < 4; i++) for (int c = 0; c < 2; c++) { cdouble x[4]; for (int q = 0; q < 4; q++) x[q] = cd(a[q], k); x[i] += c ? cdouble(0, ROUND) : cdouble(ROUND, 0); cmatrix D(x[0], x[1], x[2], x[3]); if (!tr(A == D && D == A && !(A != D), "equality ignores rounding")) return; }
  for (auto& z : AL()) {   // complex scalars
    cdouble d = cd(z, 0); M e = sc(a, z);
    { cmatrix C = A; cmatrix& r = (C *= d); if (!ok(C, e, k, "A*=complex") || !tr(&r == &C, "*= returns its operand")) return; }
    if (!ok(A * d, e, k, "A*complex") || !ok(d * A, e, k, "complex*A")) return;
    if (z.r || z.i) { { cmatrix C = A; cmatrix& r = (C /= d); if (!near(C, a, d, k, "A/=complex") || !tr(&r == &C, "/= returns its operand")) return; } if (!near(A / d, a, d, k, "A/complex")) return; }
  }
  for (int n : {0, 1, -1, 2, -3, 7, 1000003, INT_MAX, INT_MIN}) {   // real and integer scalars
    G z{n, 0}; M e = sc(a, z); ldouble d = n;
    { cmatrix C = A; cmatrix& r = (C *= n); if (!ok(C, e, k, "A*=int") || !tr(&r == &C, "*= returns its operand")) return; }
    { cmatrix C = A; cmatrix& r = (C *= d); if (!ok(C, e, k, "A*=real") || !tr(&r == &C, "*= returns its operand")) return; }
    if (!ok(A * n, e, k, "A*int") || !ok(n * A, e, k, "int*A") || !ok(A * d, e, k, "A*real") || !ok(d * A, e, k, "real*A")) return;
    if (n) { { cmatrix C = A; cmatrix& r = (C /= n); if (!near(C, a, d, k, "A/=int") || !tr(&r == &C, "/= returns its operand")) return; } { cmatrix C = A; cmatrix& r = (C /= d); if (!near(C, a, d, k, "A/=real") || !tr(&r == &C, "/= returns its operand")) return; }
      if (!near(A / n, a, d, k, "A/int") || !near(A / d, a, d, k, "A/real")) return; }
  }
  for (ldouble d : {(ldouble)0.5, (ldouble)-0.125, (ldouble)1 / 1024}) { int sh = d == 0.5 ? -1 : d < 0 ? -3 : -10; M e = d < 0 ? neg(a) : a; if (!ok(A * d, e, k + sh, "A*fraction") || !ok(d * A, e, k + sh, "fraction*A") || !ok(A / d, e, k - sh, "A/fraction")) return; }
  // equality notices a difference in any component
  for (int i = 0; i < 4; i++) for (int c = 0; c < 2; c++) for (ldouble eps : {(ldouble)1e-6L, (ldouble)-1e-3L, (ldouble)1, FINE, -FINE}) {
    cdouble x[4]; for (int q = 0; q < 4; q++) x[q] = cd(a[q], k); ldouble s = eps * std::max((ldouble)1, std::ldexp((ldouble)1, k)); x[i] += c ? cdouble(0, s) : cdouble(s, 0); cmatrix D(x[0], x[1], x[2], x[3]);
    if (!tr(!(A == D) && A != D && !(D == A), "equality overlooks a differing component")) return; }
  if (!tr(A == A && !(A != A) && A == cmatrix(A), "equality with itself")) return;
  if (!ok(A, a, k, "A afterwards")) return;
}
static void vecs(const W& v, const W& w, int k) {
  key_ = "vec:" + std::to_string(k) + ":"; for (auto& z : v) key_ += std::to_string(z.r) + "," + std::to_string(z.i) + ","; for (auto& z : w) key_ += std::to_string(z.r) + "," + std::to_string(z.i) + ",";
  at(key_); cur = str(v) + " " + str(w) + " *2^" + std::to_string(k); st().states++; st().traces++;
  cvector V = cv(v, k), U = cv(w, k); cdouble raw[2] = {cd(v[0], k), cd(v[1], k)};
  if (!ok(V, v, k, "constructed") || !ok(cvector(raw), v, k, "constructed from array") || !ok(V * U, v[0] * w[0] + v[1] * w[1], 2 * k, "v*w")) return;
  if (!ok(outer(V, U), M{v[0] * w[0], v[0] * w[1], v[1] * w[0], v[1] * w[1]}, 2 * k, "outer(v,w)") || !ok(outer(V, V), M{v[0] * v[0], v[0] * v[1], v[1] * v[0], v[1] * v[1]}, 2 * k, "outer(v,v)")) return;
  if (!ok(V * V, v[0] * v[0] + v[1] * v[1], 2 * k, "v*v") || !ok(-V, W{-v[0], -v[1]}, k, "-v") || !ok(V.get_conjugate(), W{G{v[0].r, -v[0].i}, G{v[1].r, -v[1].i}}, k, "conjugate")) return;
  bool eq = v[0] == w[0] && v[1] == w[1];
  if (!tr((V == U) == eq, "v==w") || !tr((V != U) == !eq, "v!=w") || !tr(V == V && !(V != V), "equality with itself")) return;
  for (auto& z : AL()) { cdouble d = cd(z, 0); W e{v[0] * z, v[1] * z}; if (!ok(V * d, e, k, "v*complex") || !ok(d * V, e, k, "complex*v")) return; }
  for (int n : {0, 1, -1, 2, -3, 1000003, INT_MAX, INT_MIN}) { ldouble d = n; W e{v[0] * G{n, 0}, v[1] * G{n, 0}}; if (!ok(V * n, e, k, "v*int") || !ok(n * V, e, k, "int*v") || !ok(V * d, e, k, "v*real") || !ok(d * V, e, k, "real*v")) return; }
  for (int i = 0; i < 2; i++) for (int c = 0; c < 2; c++) for (ldouble eps : {(ldouble)1e-6L, (ldouble)-1e-3L, (ldouble)1, FINE, -FINE}) {
    cdouble x[2] = {raw[0], raw[1]}; ldouble s = eps * std::max((ldouble)1, std::ldexp((ldouble)1, k)); x[i] += c ? cdouble(0, s) : cdouble(s, 0); cvector D(x);
    if (!tr(!(V == D) && V != D && !(D == V), "equality overlooks a differing component")) return; }
  if (k <= 0) for (int i = 0; i < 2; i++) for (int c = 0; c < 2; c++) { cdouble x[2] = {raw[0], raw[1]}; x[i] += c ? cdouble(0, ROUND) : cdouble(ROUND, 0); cvector D(x); if (!tr(V == D && D == V && !(V != D), "equality ignores rounding")) return; }
  if (!ok(V, v, k, "v afterwards") || !ok(U, w, k, "w afterwards")) return;
  outcome(mix(hnum((V * U).real()), hnum((V * U).imag())));
}
static void matvec(const M& a, const W& v, int k) {
  key_ = "mv:" + std::to_string(k) + ":"; for (auto& z : a) key_ += std::to_string(z.r) + "," + std::to_string(z.i) + ","; for (auto& z : v) key_ += std::to_string(z.r) + "," + std::to_string(z.i) + ",";
  at(key_); cur = str(a) + " " + str(v) + " *2^" + std::to_string(k); st().states++; st().traces++;
  cmatrix A = cm(a, k); cvector V = cv(v, k);
  if (!ok(A * V, W{a[0] * v[0] + a[1] * v[1], a[2] * v[0] + a[3] * v[1]}, 2 * k, "A*v") || !ok(V * A, W{v[0] * a[0] + v[1] * a[2], v[0] * a[1] + v[1] * a[3]}, 2 * k, "v*A")) return;
  { cvector U = V; U = U * A; if (!ok(U, W{v[0] * a[0] + v[1] * a[2], v[0] * a[1] + v[1] * a[3]}, 2 * k, "v=v*A")) return; U = V; U = A * U; if (!ok(U, W{a[0] * v[0] + a[1] * v[1], a[2] * v[0] + a[3] * v[1]}, 2 * k, "v=A*v")) return; }
  if (!ok(A, a, k, "A afterwards") || !ok(V, v, k, "v afterwards")) return;
}
static void mom(const std::vector<int>& q, int k) {
  key_ = "mom:" + std::to_string(k) + ":" + join(q); at(key_); cur = "four-vector " + join(q) + " *2^" + std::to_string(k); st().states++; st().traces++;
  ldouble p[4], p0[4]; for (int i = 0; i < 4; i++) p[i] = p0[i] = std::ldexp((ldouble)q[i], k);
  cmatrix U(p, UPPER), L(p, LOWER); long long e = q[0], x = q[1], y = q[2], z = q[3], s = e * e - x * x - y * y - z * z;
  if (!ok(U, M{G{e - z, 0}, G{-x, y}, G{-x, -y}, G{e + z, 0}}, k, "upper momentum matrix") || !ok(L, M{G{e + z, 0}, G{x, -y}, G{x, y}, G{e - z, 0}}, k, "lower momentum matrix")) return;
  if (!ok(cdouble(U.get_det(), 0), G{s, 0}, 2 * k, "determinant of upper") || !ok(cdouble(det(L), 0), G{s, 0}, 2 * k, "determinant of lower")) return;
  M one{G{s, 0}, G{0, 0}, G{0, 0}, G{s, 0}}; if (!ok(U * L, one, 2 * k, "upper*lower") || !ok(L * U, one, 2 * k, "lower*upper")) return;
  tr(p[0] == p0[0] && p[1] == p0[1] && p[2] == p0[2] && p[3] == p0[3], "the four-vector is unchanged");
}
// sequences of compound assignments on one matrix
static void seq(const std::vector<int>& s) {
  key_ = "seq:" + join(s); at(key_); cur = "sequence " + join(s); st().states++; st().traces++;
  const auto& al = AL(); M b{al[1], al[2], al[3], al[0]}, a{al[4], al[1], al[6], al[7]}; cmatrix A = cm(a, 0), B = cm(b, 0);
  for (int o : s) { switch (o) {
    case 0: A += B; a = add(a, b); break; case 1: A -= B; a = sub(a, b); break; case 2: A *= B; a = mul(a, b); break; case 3: A *= cdouble(1, -1); a = sc(a, G{1, -1}); break;
    case 4: A *= -2; a = sc(a, G{-2, 0}); break; case 5: A *= (ldouble)3; a = sc(a, G{3, 0}); break; case 6: A += A; a = add(a, a); break; case 7: (A -= B) *= B; a = mul(sub(a, b), b); break;
    case 8: A = B * A; a = mul(b, a); break; case 9: A = -A; a = neg(a); break; case 10: std::swap(A, B); std::swap(a, b); break; }
    if (!ok(A, a, 0, "the matrix") || !ok(B, b, 0, "the other matrix")) return; }
}
static std::vector<M> mats(int n) { std::vector<M> r; const auto& al = AL(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) r.push_back({al[i], al[j], al[p], al[q]}); return r; }
static std::vector<W> wecs(int n) { std::vector<W> r; const auto& al = AL(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.push_back({al[i], al[j]}); return r; }

static void run_case(const std::string& k) {
  auto f = split(k, ':');
  if (f[0] == "seq") { seq(ints(f[1])); return; }
  int s = atoi(f[1].c_str()); auto v = ints(f[2]); auto g = [&](int i) { return G{v[2 * i], v[2 * i + 1]}; };
  if (f[0] == "pair") pair({g(0), g(1), g(2), g(3)}, {g(4), g(5), g(6), g(7)}, s);
  else if (f[0] == "single") single({g(0), g(1), g(2), g(3)}, s);
  else if (f[0] == "vec") vecs({g(0), g(1)}, {g(2), g(3)}, s);
  else if (f[0] == "mv") matvec({g(0), g(1), g(2), g(3)}, {g(4), g(5)}, s);
  else mom(v, s);
}
int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      int n2 = opt().thorough ? 8 : 5, n1 = opt().thorough ? 9 : 6, nv = opt().thorough ? 9 : 7, depth = opt().thorough ? 7 : 5;
      std::vector<int> scales = {0, -20, 31};
      shards(64, [&](int sh) {
        auto m2 = mats(n2), m1 = mats(n1); auto w = wecs(nv);
        for (size_t i = sh; i < m2.size() && !enough(); i += 64) for (auto& b : m2) pair(m2[i], b, 0);
        for (int k : scales) for (size_t i = sh; i < m1.size() && !enough(); i += 64) single(m1[i], k);
        for (int k : scales) for (size_t i = sh; i < w.size() && !enough(); i += 64) for (auto& b : w) vecs(w[i], b, k);
        auto w5 = wecs(5); for (int k : scales) for (size_t i = sh; i < m2.size() && !enough(); i += 64) for (auto& b : w5) matvec(m2[i], b, k);
        auto few = mats(3); for (int k : {-20, 31}) for (size_t i = sh; i < few.size() && !enough(); i += 64) for (auto& b : few) pair(few[i], b, k);
        int c = 0; for (int k : scales) for (int e = -4; e <= 5; e++) for (int x = -4; x <= 4; x++) { if (c++ % 64 != sh) continue; for (int y = -4; y <= 4; y++) for (int z = -4; z <= 4; z++) mom({e, x, y, z}, k); }
        for (int d = 1; d <= depth; d++) { long tot = 1; for (int i = 0; i < d; i++) tot *= 11; for (long q = sh; q < tot && !enough(); q += 64) { std::vector<int> s; long r = q; for (int i = 0; i < d; i++) { s.push_back(r % 11); r /= 11; } seq(s); } }
        if (sh == 1) { sample("pair " + str(m2[77]) + " " + str(m2[400])); sample("single " + str(m1[700]) + " *2^-20"); sample("matrix*vector " + str(m2[300]) + " " + str(w5[7])); sample("sequence 0,2,8,10,6"); }
        if (sh == 0) { key_ = "default"; cur = "default construction"; ok(cmatrix(), M{}, 0, "default matrix"); ok(cvector(), W{}, 0, "default vector"); }
      });
    },
    run_case,
    [] { return std::map<std::string, std::string>{{"matrix pairs", opt().thorough ? "8^8" : "5^8"}, {"single matrices", opt().thorough ? "9^4 x 3 scales" : "6^4 x 3 scales"}, {"vector pairs", opt().thorough ? "9^4 x 3 scales" : "7^4 x 3 scales"}, {"sequences of compound operations", opt().thorough ? "length <= 7 over 11" : "length <= 5 over 11"}}; });
}
