// C12: the 2-to-2 validators hand right momenta to the amplitude and count exactly the wrong values.
// The amplitude is the environment: faults are injected at every position.
#include "mc.h"
#include "rng_seam.h"
#include "spinas.h"
using namespace mc; using namespace spinas;

static const uint64_t W[4] = {0, 0xffffffffull, 0x9999999aull, 0x26666666ull};
static int stream_ = 0; static uint64_t drawn = 0, inrow = 0;
uint64_t mc::engine_word(uint64_t lo, uint64_t hi) {
  // draw k of an evaluation takes digit k of the stream number; a long run of rejections ends with a middling value
  uint64_t k = inrow++; drawn++; if (k > 40) return lo + (hi - lo) / 5;
  int digit = (stream_ >> (2 * ((k / 2) % 7))) & 3; digit = (digit + (k / 14)) & 3;
  return hi == 0xffffffffull && lo == 0 ? W[digit] : lo + (uint64_t)((long double)(hi - lo) * (W[digit] / 4294967295.0L));
}
static ldouble dot(const ldouble a[4], const ldouble b[4]) { return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]; }
static ldouble sqr(ldouble x) { return x * x; }
struct Kin { ldouble m[4], P; const char* name; };
static const std::vector<Kin>& kins() {
  static std::vector<Kin> k = {{{0, 0, 0, 0}, 250, "massless"}, {{0.0005L, 0.0005L, 80, 80}, 250, "light to heavy"}, {{80, 80, 0.0005L, 0.0005L}, 10, "heavy to light"}, {{4, 175, 80, 4}, 1000, "all different"}, {{91, 0, 125, 10}, 500, "one massless"}, {{0, 5, 0, 5}, 1.5L, "slow elastic"},
    {{3, 4, 4, 3}, 0.125L, "very slow exchange"}, {{0, 0, 100, 50}, 75, "at threshold"}, {{1, 1, 1, 1}, 1e6L, "ultra-relativistic"}, {{1e-3L, 2e-3L, 1e-3L, 2e-3L}, 1e-3L, "small scale"}, {{125, 125, 91, 91}, 3, "inelastic near rest"}, {{80, 0, 0, 0}, 40, "decay-like"}};
  return k;
}
enum { NONE, UP, DOWN, UPFINE, DOWNFINE, DOUBLE, FLIP, ZERO, NAN_, PINF, MINF, BIG, DNAN, DPINF, DMINF, NOISE, TURNED, MOVING, NKIND };
static const char* kindname[] = {"none", "too big by 1e-6", "too small by 1e-6", "too big by 1e-8 (boosted frames 1e-7)", "too small by 1e-8 (boosted frames 1e-7)", "doubled", "sign flipped", "zero", "NaN", "+infinity", "-infinity", "1e30", "NaN in the data", "+infinity in the data", "-infinity in the data", "rounding noise", "wrong unless the beam is along z", "wrong unless the total momentum vanishes"};

struct TP : process {
  // expectations
  Kin K; int mode; ldouble data[20], ref[20]; ldouble cost[20]; int kind = NONE; std::set<int> bad; int badeval = -1;
  // records
  int cur = -1, curEval = 0; int evalsAt[20] = {0}; int calls = 0, amps = 0; int faults = 0; std::string err; bool fresh = false;
  ldouble s, t[20], scale;
  TP(const Kin& k, int dk) : K(k) {
    ldouble E1 = std::sqrt(sqr(K.P) + sqr(K.m[0])), E2 = std::sqrt(sqr(K.P) + sqr(K.m[1])); s = sqr(E1 + E2); ldouble rs = E1 + E2;
    ldouble q2 = (s - sqr(K.m[2] + K.m[3])) * (s - sqr(K.m[2] - K.m[3])) / (4 * s); ldouble Po = q2 > 0 ? std::sqrt(q2) : 0, E3 = std::sqrt(sqr(Po) + sqr(K.m[2])); (void)rs; scale = s;
    for (int j = 0; j < 20; j++) { cost[j] = 0.95L - 0.1L * j; t[j] = sqr(E1 - E3) - (sqr(K.P) + sqr(Po) - 2 * K.P * Po * cost[j]);
      switch (dk) { case 0: data[j] = 0.37L + 0.11L * j; break; case 1: data[j] = j % 3 == 0 ? 0 : 1e-4L * (j + 1); break; case 2: data[j] = 1e10L * (21 - j); break; case 4: data[j] = 1e-13L * (j + 1); break; case 5: data[j] = 1e-17L * (j + 1); break; default: data[j] = (j % 2 ? 1 : -1) * (2.5L + j); }
      ref[j] = data[j]; }
  }
  void set_momenta(const ldouble a[4], const ldouble b[4], const ldouble c[4], const ldouble d[4]) override {
    calls++; st().transitions++; inrow = 0; fresh = true;
    const ldouble* p[4] = {a, b, c, d}; ldouble e = 0; for (int i = 0; i < 4; i++) { if (!(p[i][0] >= 0) || !std::isfinite(p[i][0])) { note("an energy is " + fmt(p[i][0])); return; } e = std::max(e, p[i][0]); }
    ldouble tol = (mode == 0 ? 1e-16L : 1e-14L)*EPSF * e * e;
    for (int i = 0; i < 4; i++) if (!(std::abs(dot(p[i], p[i]) - sqr(K.m[i])) <= tol)) note("momentum " + std::to_string(i + 1) + " is off shell");
    for (int k = 0; k < 4; k++) if (!(std::abs(a[k] + b[k] - c[k] - d[k]) <= (mode == 0 ? 2e-17L : 2e-15L)*EPSF * e)) note("momentum is not conserved");
    ldouble ss = sqr(a[0] + b[0]) - sqr(a[1] + b[1]) - sqr(a[2] + b[2]) - sqr(a[3] + b[3]), tt = sqr(a[0] - c[0]) - sqr(a[1] - c[1]) - sqr(a[2] - c[2]) - sqr(a[3] - c[3]);
    if (!(std::abs(ss - s) <= tol * 4)) note("the centre-of-mass energy is wrong");
    // which angle is this? The next one of the list, or the same as before
    int j = -1; ldouble sep = std::abs(t[0] - t[1]);
    auto fits = [&](int i) { return i >= 0 && i < 20 && std::abs(tt - t[i]) <= tol * 4 + 1e-13L*EPSF * sep; };
    if (sep <= 100 * tol) { j = calls <= 1 ? 0 : cur; per++; if (per > perAngle()) { per = 1; j = cur + 1; } if (!fits(std::min(j, 19))) note("the scattering angle is wrong"); }   // at threshold all angles coincide
    else for (int i = 0; i < 20; i++) if (fits(i)) j = i;
    if (j < 0 || j >= 20) { note("the scattering angle is wrong, t = " + fmt(tt)); return; }
    if (mode == 0 && !(std::abs(a[1]) + std::abs(a[2]) + std::abs(a[1] + b[1]) + std::abs(a[3] + b[3]) <= 1e-17L*EPSF * e)) note("not the centre-of-mass frame with the beam along z");
    curEval = evalsAt[j]++; cur = j;
    // the frame: is the whole moving, and is the beam turned away from z when the motion is undone?
    ldouble T[4], rs = std::sqrt(s), m2 = 0; for (int k = 0; k < 4; k++) T[k] = a[k] + b[k]; for (int k = 1; k < 4; k++) m2 += sqr(T[k]);
    moving = m2 > 1e-12L * sqr(T[0]); ldouble pT = a[1] * T[1] + a[2] * T[2] + a[3] * T[3], q[4]; for (int k = 1; k < 4; k++) q[k] = a[k] + T[k] * (pT / (rs * (T[0] + rs)) - a[0] / rs);
    turned = sqr(q[1]) + sqr(q[2]) > 1e-8L * sqr(K.P) || q[3] < 0;
  }
  ldouble fine() const { return mode == 2 || mode == 3 ? 1e-7L : 1e-8L; }
  bool turned = false, moving = false;
  int per = 0; int perAngle() const { return mode == 0 || mode == 4 ? 1 : 10; }
  void note(const std::string& x) { if (err.empty()) err = x; }
  ldouble amp() {
    amps++; if (!fresh) note("the amplitude is evaluated without setting momenta"); fresh = false;
    if (cur < 0) return 0; ldouble r = ref[cur];
    if (kind == NOISE) { static const ldouble n[4] = {1e-12L, -1e-12L, 0, 3e-13L}; return r * (1 + n[amps & 3]); }
    if (kind == TURNED || kind == MOVING) { if (!(kind == TURNED ? turned : moving)) return r; faults++; return 2 * r + (r == 0); }
    if (!bad.count(cur) || (badeval >= 0 && curEval != badeval)) return r;
    if (kind >= DNAN && kind <= DMINF) { faults++; return r; }
    faults++;
    switch (kind) { case UP: return r + 1e-6L * (std::abs(r) + (r == 0)); case DOWN: return r - 1e-6L * (std::abs(r) + (r == 0)); case UPFINE: return r + fine() * (std::abs(r) + (r == 0)); case DOWNFINE: return r - fine() * (std::abs(r) + (r == 0)); case DOUBLE: if (r == 0) return 2; return 2 * r; case FLIP: if (r == 0) return -1; return -r; case ZERO: if (r == 0) faults--; return 0;
      case NAN_: return NAN; case PINF: return INFINITY; case MINF: return -INFINITY; case BIG: return 1e30L; }
    return r;
  }
};
// mode 0 plain, 1 rotations, 2 boosts, 3 boosts and rotations, 4 score
static const char* modename[] = {"test_2to2_amp2", "test_2to2_amp2_rotations", "test_2to2_amp2_boosts", "test_2to2_amp2_boosts_and_rotations", "score_2to2_amp2"};
static ldouble run(int kin, int mode, int dk, int kind, int b1, int b2, int ev, int stream, bool report = true) {
  std::string key = "v:" + join({kin, mode, dk, kind, b1, b2, ev, stream}); at(key); st().states++; st().traces++;
  TP P(kins()[kin], dk); P.mode = mode == 4 ? 0 : mode; P.kind = kind; if (b1 >= 0) P.bad.insert(b1); if (b2 >= 0) P.bad.insert(b2); P.badeval = ev; stream_ = stream; inrow = 0;
  if (kind >= DNAN && kind <= DMINF) for (int j : P.bad) P.data[j] = kind == DNAN ? NAN : kind == DPINF ? INFINITY : -INFINITY;
  const Kin& K = P.K; const ldouble *m = K.m; ldouble out = 0; ldouble keep[20]; memcpy(keep, P.data, sizeof keep);
  ldouble params[10]; for (int i = 0; i < 10; i++) params[i] = 1.5L * i + 0.25L;
  auto f = [&]() { return P.amp(); };
  // print_test_message writes to stdout with printf: silenced by the caller
  if (mode == 0) out = P.test_2to2_amp2(f, m[0], m[1], m[2], m[3], K.P, P.data); else if (mode == 1) out = P.test_2to2_amp2_rotations(f, m[0], m[1], m[2], m[3], K.P, P.data); else if (mode == 2) out = P.test_2to2_amp2_boosts(f, m[0], m[1], m[2], m[3], K.P, P.data); else if (mode == 3) out = P.test_2to2_amp2_boosts_and_rotations(f, m[0], m[1], m[2], m[3], K.P, P.data);
  else out = P.score_2to2_amp2([&](const ldouble* q) { for (int i = 0; i < 10; i++) if (q[i] != params[i]) P.note("the parameters are not passed on"); return P.amp(); }, m[0], m[1], m[2], m[3], K.P, P.data, params);
  if (!report) return out;
  std::string w = std::string(modename[mode]) + " with " + K.name + " kinematics, " + kindname[kind]; if (b1 >= 0) w += " at angle " + std::to_string(b1); if (b2 >= 0) w += " and " + std::to_string(b2); if (ev >= 0) w += " evaluation " + std::to_string(ev);
  if (!P.err.empty()) { fail(key, w + ": " + P.err); return out; }
  for (int j = 0; j < 20; j++) if (P.evalsAt[j] == 0) { fail(key, w + ": angle " + std::to_string(j) + " is never evaluated"); return out; }
  if (memcmp(keep, P.data, 0)) fail(key, w);
  outcome(mix(mode, hnum(out)));
  if (mode < 4) { if (out != P.faults) fail(key, w + ": returns " + fmts(out) + ", the amplitude was wrong " + std::to_string(P.faults) + " times"); }
  else if (P.faults == 0 ? !(out == 0) : (out == 0 || out < 0)) fail(key, w + ": score " + fmt(out));
  return out;
}
static void pairscore(int kin, int dk, int a, int b) {   // a further disagreement makes the score grow
  std::string key = "p:" + join({kin, dk, a, b}); at(key);
  for (int kd : {UP, DOUBLE, BIG, ZERO}) { ldouble one = run(kin, 4, dk, kd, a, -1, -1, 0, false), two = run(kin, 4, dk, kd, a, b, -1, 0, false), oth = run(kin, 4, dk, kd, b, -1, -1, 0, false); if (one > 0 && oth > 0 && !(two > one && two > oth)) { fail(key, std::string("score does not grow: ") + kindname[kd] + " at " + std::to_string(a) + " gives " + fmt(one) + ", also at " + std::to_string(b) + " gives " + fmt(two)); return; } }
}
// The frames: an amplitude which is right only for the beam along z, or only in the centre of mass, is noticed.
static void frames(int kin, int mode, int kd) {
  std::string key = "g:" + join({kin, mode, kd}); at(key); int n = 0; const int N = 256;
  for (int s = 0; s < N; s++) if (run(kin, mode, 0, kd, -1, -1, -1, s * 37 % 16384) > 0) n++;
  bool want = kd == TURNED ? mode == 1 || mode == 3 : mode == 2 || mode == 3; at(key);
  if (want ? 4 * n < N : n > 0) fail(key, std::string(modename[mode]) + " with " + kins()[kin].name + " kinematics: an amplitude that is " + kindname[kd] + " is noticed with " + std::to_string(n) + " of " + std::to_string(N) + " random streams");
}
static void run_case(const std::string& k) { auto f = split(k, ':'); auto v = ints(f[1]); if (f[0] == "g") frames(v[0], v[1], v[2]); else if (f[0] == "p") pairscore(v[0], v[1], v[2], v[3]); else run(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); }
int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      bool th = opt().thorough; int nk = (int)kins().size();
      shards(64, [&](int sh) {
        freopen("/dev/null", "w", stdout);
        int c = 0; auto mine = [&] { return c++ % 64 == sh; };
        // kinematics and agreement, every stream of frames
        for (int kin = 0; kin < nk; kin++) for (int mode = 0; mode < 5; mode++) for (int dk = 0; dk < 4; dk++) for (int kd : {(int)NONE, (int)NOISE}) for (int s = 0; s < (mode == 0 || mode == 4 ? 1 : dk == 0 && kd == NONE ? (th ? 16384 : 256) : 4); s++) if (mine() && !enough()) run(kin, mode, dk, kd, -1, -1, -1, mode == 3 ? s * 37 % 16384 : s);
        for (int kin = 0; kin < nk; kin++) for (int mode = 0; mode < 4; mode++) for (int kd : {(int)TURNED, (int)MOVING}) if (mine() && !enough()) frames(kin, mode, kd);
        // single faults: every position, kind, data; every evaluation for some streams
        for (int kin = 0; kin < nk; kin++) for (int mode = 0; mode < 5; mode++) for (int dk = 0; dk < 4; dk++) for (int kd = UP; kd < NOISE; kd++) for (int j = 0; j < 20; j++) { if (!mine() || enough()) continue; run(kin, mode, dk, kd, j, -1, -1, (j * 5 + kd) % 256); if (mode && mode < 4 && (kd < DNAN) && (th || kin == 1)) for (int e = 0; e < 10; e++) run(kin, mode, dk, kd, j, -1, e, (e * 7 + j) % 256); }
        // small amplitudes, below which only the scoring function goes
        for (int kin = 0; kin < nk; kin++) for (int mode = 0; mode < 5; mode++) for (int dk : {4, 5}) for (int kd : {NONE, DOUBLE, FLIP, ZERO, NAN_, PINF, MINF, BIG, DNAN, DPINF, DMINF}) for (int j = 0; j < (kd == NONE ? 1 : 20); j++) { if (dk == 5 && mode < 4) continue; if (!mine() || enough()) continue; run(kin, mode, dk, kd, kd == NONE ? -1 : j, -1, -1, (j * 3 + kd) % 256); }
        // pairs of faults
        for (int kin = 0; kin < nk; kin += th ? 1 : 4) for (int mode = 0; mode < 5; mode++) for (int kd = UP; kd < NOISE; kd++) for (int a = 0; a < 20; a++) for (int b = a + 1; b < 20; b++) { if (!mine() || enough()) continue; run(kin, mode, 0, kd, a, b, -1, (a + b) % 64); }
        for (int kin = 0; kin < nk; kin++) for (int a = 0; a < 20; a++) for (int b = 0; b < 20; b++) if (a != b && mine() && !enough()) pairscore(kin, 0, a, b);
        st().counters["engine_words_asked"] += drawn;
        if (sh == 3) { sample("test_2to2_amp2_boosts, all different, NaN at angle 7"); sample("score_2to2_amp2, at threshold, doubled at angles 3 and 15"); }
      });
    },
    run_case,
    [] { return std::map<std::string, std::string>{{"faults", "single: 20 angles x 14 kinds x 4 data sets (and small ones) x 12 kinematics x 5 validators; pairs: 190 x 14 kinds"}, {"frames", opt().thorough ? "16384 engine streams" : "256 engine streams"}}; });
}
