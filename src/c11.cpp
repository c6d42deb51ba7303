// C11: random kinematics are valid for every outcome of the random engine.
// Every word the engine delivers is a choice; all sequences of choices are executed.
#include "mc.h"
#include "choice.h"
#include "rng_seam.h"
#include "spinas.h"
using namespace mc; using namespace spinas;

static const std::vector<uint64_t>& words() { static std::vector<uint64_t> w = {0, 0xffffffffull, 0x80000000ull, 0x2aaaaaabull, 1}; return w; }
static int NW = 4;
uint64_t mc::engine_word(uint64_t lo, uint64_t hi) {
  int c = choice().pick(NW, -1);
  if (choice().pos > 4000) throw std::runtime_error("the random generator is asked without end");
  st().transitions++;
  if (c < 0) return lo + (uint64_t)(0.2L * (hi - lo));   // a middling value once the bound is reached
  if (hi == 0xffffffffull && lo == 0) return words()[c];
  long double f = words()[c] / 4294967295.0L; uint64_t v = lo + (uint64_t)(f * (hi - lo)); return v < lo || v > hi ? hi : v;
}
static ldouble sqr(ldouble x) { return x * x; }
static std::string show(const ldouble p[4]) { return "{" + fmt(p[0]) + "," + fmt(p[1]) + "," + fmt(p[2]) + "," + fmt(p[3]) + "}"; }
struct Rng { ldouble a, b; };
static const Rng ranges[] = {{-50, 50}, {0, 1000}, {1e-3L, 10}, {-1000, 1}, {0, 1e-3L}, {-1e6L, 1e6L}, {5, 5}, {0, 0}};
static const int NR = 8;
static const int iranges[][2] = {{0, 1}, {-3, 3}, {0, 0}, {1, 6}, {-2147483647 - 1, 2147483647}, {0, 1000000}, {-5, -2}};

// test momenta on which the random rotations and boosts act
struct Ev { ldouble p[4][4]; ldouble m[4]; };
static Ev event(int i) {
  static const ldouble mm[][4] = {{0, 0, 0, 0}, {0.0005L, 0.0005L, 80, 80}, {4, 175, 80, 4}, {91, 0, 125, 10}, {0, 1, 0, 1}}; static const ldouble P[] = {100, 250, 1000, 500, 1.5L};
  if (i == 5) { Ev b; ldouble q[4][4] = {{1, 0, 0, 0}, {2, 1, 0, 0}, {2, 0, 1, 0}, {2, 0, 0, 1}}; memcpy(b.p, q, sizeof q); return b; }   // a basis: shows the whole transformation
  Ev e; process pr; ldouble E1, E2, E3, E4, Po; for (int k = 0; k < 4; k++) e.m[k] = mm[i][k];
  E1 = std::sqrt(sqr(P[i]) + sqr(e.m[0])); E2 = std::sqrt(sqr(P[i]) + sqr(e.m[1])); ldouble s = sqr(E1 + E2); Po = std::sqrt((s - sqr(e.m[2] + e.m[3])) * (s - sqr(e.m[2] - e.m[3])) / (4 * s)); E3 = std::sqrt(sqr(Po) + sqr(e.m[2])); E4 = std::sqrt(sqr(Po) + sqr(e.m[3]));
  ldouble q[4][4] = {{E1, 0, 0, P[i]}, {E2, 0, 0, -P[i]}, {E3, Po * 0.48L, Po * 0.64L, Po * 0.6L}, {E4, -Po * 0.48L, -Po * 0.64L, -Po * 0.6L}}; memcpy(e.p, q, sizeof q); return e;
}
static ldouble dot(const ldouble a[4], const ldouble b[4]) { return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]; }
static ldouble trip(const ldouble a[4], const ldouble b[4], const ldouble c[4]) { return a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1]); }
// determinant of four four-vectors, for orientation
static ldouble det4(const ldouble m[4][4]) { ldouble d = 0; for (int i = 0; i < 4; i++) { const ldouble* r[3]; int k = 0; for (int j = 0; j < 4; j++) if (j != i) r[k++] = m[j]; d += (i % 2 ? -1 : 1) * m[i][0] * trip(r[0], r[1], r[2]); } return d; }

// returns an error text, empty if all is well
static std::string once(int what, int arg) {
  ldouble p[4] = {-1, -1, -1, -1};
  if (what <= 1) {
    Rng r = ranges[arg]; ldouble m = what == 0 ? choose_random_momentum(p, r.a, r.b) : (choose_random_massless_momentum(p, r.a, r.b), 0);
    std::string t = (what == 0 ? "random momentum " : "random massless momentum ") + show(p) + " mass " + fmt(m);
    for (int i = 1; i < 4; i++) if (!(p[i] >= r.a && p[i] <= r.b)) return t + ": component out of range [" + fmts(r.a) + "," + fmts(r.b) + "]";
    if (!(m >= 0 && m <= std::max(r.b, (ldouble)0))) return t + ": mass out of range";
    ldouble e2 = sqr(p[0]); if (!(p[0] >= 0) || !(std::abs(dot(p, p) - m * m) <= 1e-17L*EPSF * e2 + 1e-300L)) return t + ": off shell";
    for (ldouble x : p) outcome(hnum(x)); outcome(hnum(m)); return "";
  }
  if (what == 2) { Rng r = ranges[arg]; cdouble z = choose_random_cdouble(r.a, r.b); outcome(mix(hnum(z.real()), hnum(z.imag()))); if (!(z.real() >= r.a && z.real() <= r.b && z.imag() >= r.a && z.imag() <= r.b)) return "random complex number " + fmt(z) + " out of range [" + fmts(r.a) + "," + fmts(r.b) + "]"; return ""; }
  if (what == 3) { Rng r = ranges[arg]; ldouble x = choose_random_ldouble(r.a, r.b); outcome(hnum(x)); if (!(x >= r.a && x <= r.b)) return "random number " + fmt(x) + " out of range"; return ""; }
  if (what == 4) { int a = iranges[arg][0], b = iranges[arg][1]; int x = choose_random_int(a, b); outcome(hnum(x)); if (x < a || x > b) return "random integer " + std::to_string(x) + " out of range [" + std::to_string(a) + "," + std::to_string(b) + "]"; return ""; }
  Ev e = event(arg), f = e; process pr;
  if (what == 5) pr.rotate_random_test_momenta(f.p[0], f.p[1], f.p[2], f.p[3]); else pr.boost_random_test_momenta(f.p[0], f.p[1], f.p[2], f.p[3]);
  std::string t = what == 5 ? "random rotation" : "random boost"; t += " turns " + show(e.p[0]) + show(e.p[1]) + show(e.p[2]) + show(e.p[3]) + " into " + show(f.p[0]) + show(f.p[1]) + show(f.p[2]) + show(f.p[3]);
  ldouble sc = 0; for (int i = 0; i < 4; i++) { if (!(f.p[i][0] >= 0) || !std::isfinite(f.p[i][0])) return t + ": energy is not positive and finite"; sc = std::max(sc, f.p[i][0]); }
  ldouble tol = 1e-15L*EPSF * sc * sc;
  for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) if (!(std::abs(dot(e.p[i], e.p[j]) - dot(f.p[i], f.p[j])) <= tol)) return t + ": dot product " + std::to_string(i + 1) + std::to_string(j + 1) + " changes";
  if (arg < 5) for (int k = 0; k < 4; k++) if (!(std::abs(f.p[0][k] + f.p[1][k] - f.p[2][k] - f.p[3][k]) <= 1e-16L*EPSF * sc)) return t + ": momentum is not conserved";
  if (what == 5) { for (int i = 0; i < 4; i++) if (f.p[i][0] != e.p[i][0]) return t + ": a rotation changes the energy"; }
  if (arg == 5 && !(std::abs(det4(f.p) - det4(e.p)) <= 1e-13L*EPSF)) return t + ": the transformation is not proper, determinant " + fmt(det4(f.p) / det4(e.p));
  for (int i = 0; i < 4; i++) outcome(mix(hnum(f.p[i][1]), hnum(f.p[i][3])));
  return "";
}
static void run1(int what, int arg, const std::vector<int>& path, size_t bound, int nw) {
  NW = nw; Choice& c = choice(); c.active = true; c.bound = bound; c.pos = 0;
  std::string key = "run:" + join({what, arg, (int)bound, nw}) + ":" + join(path); at(key); st().traces++; st().states++;
  std::string err; try { err = once(what, arg); } catch (const std::exception& e) { err = std::string("exception: ") + e.what(); }
  c.active = false;
  if (!err.empty()) { std::string w = " for engine words "; size_t n = 0; for (int x : c.path) { if (n++ > 12) break; w += std::to_string(words()[x]) + " "; } fail("run:" + join({what, arg, (int)bound, nw}) + ":" + join(c.path), err + w); }
}
static void run_case(const std::string& k) { auto f = split(k, ':'); auto v = ints(f[1]); choice() = Choice(); choice().path = ints(f[2]); choice().width.assign(choice().path.size(), v[3]); run1(v[0], v[1], choice().path, v[2], v[3]); }
int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      bool th = opt().thorough;
      struct Job { int what, arg; size_t bound; int nw, first, second; }; std::vector<Job> jobs;
      auto add = [&](int what, int n, size_t bound, int nw) { for (int a = 0; a < n; a++) for (int f = 0; f < nw; f++) for (int g = 0; g < nw; g++) jobs.push_back({what, a, bound, nw, f, g}); };
      add(0, NR, 8, th ? 5 : 4); add(1, NR, 6, 5); add(2, NR, 4, 5); add(3, NR, 2, 5); add(4, 7, 4, 5); add(5, 6, 8, th ? 5 : 4); add(6, 6, th ? 12 : 10, th ? 4 : 3); add(6, 6, 6, 5); if (th) add(6, 6, 8, 5);
      shards((int)jobs.size(), [&](int s) {
        Job j = jobs[s]; Choice& c = choice(); c = Choice(); c.path = {j.first, j.second}; c.width = {j.nw, j.nw};
        uint64_t n = 0;
        while (true) { run1(j.what, j.arg, c.path, j.bound, j.nw); n++; if (enough()) break;
          if (c.pos < 2) break;     // fewer choices than the shard prefix: explored once
          if (c.path.size() > std::min(c.pos, c.bound)) { c.path.resize(std::min(c.pos, c.bound)); c.width.resize(c.path.size()); }
          while (c.path.size() > 2 && ++c.path.back() >= c.width.back()) { c.path.pop_back(); c.width.pop_back(); }
          if (c.path.size() <= 2) break; }
        st().counters["engine_words_asked"] += c.asked;
        if (s % 97 == 5) sample("routine " + std::to_string(j.what) + " argument set " + std::to_string(j.arg) + " words " + join(c.path) + ": " + std::to_string(n) + " sequences");
      });
    },
    run_case,
    [] { return std::map<std::string, std::string>{{"engine words", opt().thorough ? "4 or 5 values at each of up to 12 engine calls, then a fixed value" : "3 to 5 values at each of up to 10 engine calls, then a fixed value"}, {"ranges", "8 real, 7 integer"}, {"events", "5 and a basis"}}; });
}
