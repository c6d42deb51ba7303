// C19: printed and Mathematica forms, read back, give the value they were made from.
#include "mc.h"
#include "spinas.h"
using namespace mc; using namespace spinas;
typedef std::complex<long double> C;

// Evaluator of the two notations. math: Mathematica (no "1e5" numbers; "*^" and products with 10^k allowed).
struct Val { bool list = false; C z = 0; std::vector<Val> l; };
struct Parser {
  std::string s; size_t i = 0; bool math; bool bad = false;
  Parser(const std::string& t, bool m) : s(t), math(m) {}
  void ws() { while (i < s.size() && isspace((unsigned char)s[i])) i++; }
  bool eat(char c) { ws(); if (i < s.size() && s[i] == c) { i++; return true; } return false; }
  Val list() { Val v; v.list = true; if (eat('}')) return v; do v.l.push_back(top()); while (eat(',')); if (!eat('}')) bad = true; return v; }
  Val top() { ws(); if (eat('{')) return list(); Val v; v.z = sum(); return v; }
  C sum() { C v = prod(); while (!bad) { ws(); if (eat('+')) v += prod(); else if (i < s.size() && s[i] == '-') { i++; v -= prod(); } else break; } return v; }
  bool starts() { ws(); if (i >= s.size()) return false; char c = s[i]; return isdigit((unsigned char)c) || c == '.' || c == '(' || isalpha((unsigned char)c); }
  C prod() { C v = unary(); while (!bad) { if (eat('*')) v *= unary(); else if (eat('/')) v /= unary(); else if (starts()) v *= power(); else break; } return v; }
  C unary() { ws(); if (eat('-')) return -unary(); if (eat('+')) return unary(); return power(); }
  C power() { C v = atom(); if (eat('^')) v = std::pow(v.real(), unary().real()); return v; }
  C atom() {
    ws(); if (i >= s.size()) { bad = true; return 0; }
    if (eat('(')) { C a = sum(); if (eat(',')) { C b = sum(); a = C(a.real(), b.real()); } if (!eat(')')) bad = true; return a; }
    if (isalpha((unsigned char)s[i])) { std::string w; while (i < s.size() && isalnum((unsigned char)s[i])) w += s[i++];
      if (w == "I" || (!math && w == "i")) return C(0, 1);
      if ((!math && w == "exp") ) { if (!eat('(')) { bad = true; return 0; } C a = sum(); if (!eat(')')) bad = true; return std::exp(a); }
      if (math && (w == "Exp")) { if (!eat('[')) { bad = true; return 0; } C a = sum(); if (!eat(']')) bad = true; return std::exp(a); }
      bad = true; return 0; }
    size_t b = i; while (i < s.size() && (isdigit((unsigned char)s[i]) || s[i] == '.')) i++;
    if (i == b) { bad = true; return 0; }
    if (!math && i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; while (i < s.size() && isdigit((unsigned char)s[i])) i++; }
    long double x = strtold(s.substr(b, i - b).c_str(), nullptr);
    if (math && i + 1 < s.size() && s[i] == '*' && s[i + 1] == '^') { i += 2; bool neg = eat('-'); if (!neg) eat('+'); int e = 0; while (i < s.size() && isdigit((unsigned char)s[i])) e = e * 10 + (s[i++] - '0'); x *= std::pow((long double)10, neg ? -e : e); }
    return x;
  }
  bool all(Val& v) { v = top(); ws(); return !bad && i == s.size(); }
};
static const std::vector<ldouble>& AL() {
  static std::vector<ldouble> a = {0, 1, -1, 0.5L, -2.25L, 1e-5L, -1e-5L, 3.25e-7L, -123456, 1234567, -7654321e3L, 1e20L, -2.5e100L, 4e-30L, -6.25e-300L, 3.14159265358979323846L, 0.1L, 999999.5L, 99999.95L, -1e15L, 1e19L, 0.0001L};
  return a;
}
static ldouble prec = 6e-6L;
static bool near(ldouble a, ldouble b, ldouble tol) { return std::abs(a - b) <= tol * std::abs(b) + 0.L; }
static bool same(const C& g, const cdouble& e, bool polar, ldouble tol) { if (polar) return std::abs(g - e) <= 2e-5L * std::abs(e); return near(g.real(), e.real(), tol) && near(g.imag(), e.imag(), tol); }
static bool flat(const Val& v, std::vector<C>& o) { if (!v.list) { o.push_back(v.z); return true; } for (auto& x : v.l) flat(x, o); return true; }
static void judge(const std::string& key, const std::string& what, const std::string& text, bool math, const std::vector<cdouble>& e, int rows, bool polar = false, ldouble tol = prec) {
  st().transitions++;
  Val v; if (!Parser(text, math).all(v)) { fail(key, what + " is not readable: " + text); return; }
  if (rows == 0 ? v.list : (!v.list || (int)v.l.size() != rows)) { fail(key, what + " has the wrong shape: " + text); return; }
  if (rows == 2 && e.size() == 4) for (auto& r : v.l) if (!r.list || r.l.size() != 2) { fail(key, what + " has the wrong shape: " + text); return; }
  std::vector<C> g; flat(v, g);
  if (g.size() != e.size()) { fail(key, what + " has the wrong number of components: " + text); return; }
  for (size_t i = 0; i < g.size(); i++) if (!same(g[i], e[i], polar, tol)) { fail(key, what + " = \"" + text + "\" reads as " + fmt(g[i]) + " for component " + std::to_string(i) + ", the value is " + fmt(C(e[i]))); return; }
  outcome(hstr(text));
}
static void number(int i, int sgn, int exp2) {
  std::string key = "num:" + join({i, sgn, exp2}); at(key); st().states++; st().traces++;
  ldouble x = std::ldexp(AL()[i] * sgn, exp2);
  judge(key, "double_to_Mathematica_string(" + fmt(x) + ")", double_to_Mathematica_string(x), true, {x}, 0, false, 1e-17L);
}
static void vec(const std::vector<int>& q) {
  std::string key = "vec:" + join(q); at(key); st().states++; st().traces++;
  const auto& a = AL(); std::vector<cdouble> e = {cdouble(a[q[0]], a[q[1]]), cdouble(a[q[2]], a[q[3]])}; cvector v(e[0], e[1]);
  judge(key, "vector text", v.to_string(), false, e, 2); judge(key, "vector text form 1", v.to_string(1), false, e, 2); judge(key, "vector polar form", v.to_string(2), false, e, 2, true);
  judge(key, "vector Mathematica form", v.to_Mathematica_string(), true, e, 2);
  std::ostringstream o; o << v; judge(key, "streamed vector", o.str(), false, e, 2);
}
static void mat(const std::vector<int>& q) {
  std::string key = "mat:" + join(q); at(key); st().states++; st().traces++;
  const auto& a = AL(); std::vector<cdouble> e; for (int i = 0; i < 4; i++) e.push_back(cdouble(a[q[2 * i]], a[q[2 * i + 1]])); cmatrix m(e[0], e[1], e[2], e[3]);
  judge(key, "matrix text", m.to_string(), false, e, 2); judge(key, "matrix Mathematica form", m.to_Mathematica_string(), true, e, 2);
  std::ostringstream o; o << m; judge(key, "streamed matrix", o.str(), false, e, 2);
}
static void run_case(const std::string& k) { auto f = split(k, ':'); auto v = ints(f[1]); if (f[0] == "num") number(v[0], v[1], v[2]); else if (f[0] == "vec") vec(v); else mat(v); }
int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      int n = (int)AL().size();
      shards(64, [&](int sh) {
        int c = 0;
        for (int i = 0; i < n; i++) for (int s = -1; s <= 1; s += 2) for (int e = -400; e <= 400; e++) if (c++ % 64 == sh) number(i, s, e);
        // vectors: all components over the whole alphabet pairwise, and all four over a part of it
        int nv = opt().thorough ? n : 11;
        for (int a = 0; a < n && !enough(); a++) for (int b = 0; b < n; b++) { if (c++ % 64 != sh) continue; vec({a, b, b, a}); vec({b, 0, a, 1}); vec({1, a, 0, b}); for (int x = 0; x < 8; x++) for (int y = 0; y < 8; y++) if (x != y) { std::vector<int> q(8, 3); q[x] = a; q[y] = b; mat(q); std::vector<int> r(8, 0); r[x] = a; r[y] = b; mat(r); } }
        for (int a = 0; a < nv && !enough(); a++) for (int b = 0; b < nv; b++) { if (c++ % 64 != sh) continue; for (int x = 0; x < nv; x++) for (int y = 0; y < nv; y++) vec({a, b, x, y}); }
        // matrices: all eight reals over {0, negative, tiny, huge}
        int al[4] = {0, 4, 5, 12}; int na = opt().thorough ? 4 : 3; long tot = 1; for (int i = 0; i < 8; i++) tot *= na;
        for (long q = sh; q < tot && !enough(); q += 64) { std::vector<int> s; long r = q; for (int i = 0; i < 8; i++) { s.push_back(al[r % na]); r /= na; } mat(s); }
        if (sh == 0) { sample(double_to_Mathematica_string(AL()[12])); sample(cvector(cdouble(1, -2), cdouble(1e-7L, 0)).to_Mathematica_string()); sample(cmatrix(cdouble(1, -2), 0, 0, cdouble(1e9L, 5)).to_string()); }
      });
    },
    run_case,
    [] { return std::map<std::string, std::string>{{"numbers", "22 values x 2 signs x 801 powers of two"}, {"vectors", opt().thorough ? "22^4" : "11^4 and all pairs of 22"}, {"matrices", opt().thorough ? "4^8 and all pairs of 22 in all pairs of places" : "3^8 and all pairs of 22 in all pairs of places"}}; });
}
