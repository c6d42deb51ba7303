// C16: helicity amplitudes, polarized and summed squared amplitudes of every process.
// The label of an incoming particle is twice its helicity, that of an outgoing one is minus twice its helicity.
#include "smk.h"
using namespace mc; using namespace sm;

static const ldouble COS[] = {0.3L, -0.7L, 0, 0.95L, -0.9995L};
static const int NCOS = 5;

// gluon amplitudes whose colour structures share one numerator: only relative strengths of the helicities
static bool shared_numerator(const Info& I, int k) { return I.amps[k] == "amp_Num" || I.name == "gggg"; }
// sum over colours belonging to a helicity amplitude
static ldouble colour(const Info& I, int k) {
  int q = 0, g = 0;
  for (auto& l : I.legs) { if (l.size() == 1 && strchr("udcstbUDCSTB", l[0])) q++; if (l == "g") g++; }
  if (I.amps[k].find("gluon") != std::string::npos) return 2;
  return g ? 4 : q == 4 ? 9 : q == 2 ? 3 : 1;
}

struct Point { const Info* I; Par p; feyn::Model m; feyn::Process P; std::vector<feyn::Process> parts; };

static bool judge(Point& c, Proc* x, const std::string& base, int ie, int ic, int ib) {
  const Info& I = *c.I;
  std::string key = base + ":" + join({ie,ic,ib});
  at(key);
  ldouble ms[4]; leg_masses(c.P,c.m,ms);
  ldouble W = energy(ms, ie, I.uses(MW) ? c.p[MW] : 20);
  Kin q = kin(ms, W, COS[ic], beams()[ib][0], beams()[ib][1]);
  ldouble dist = pole_distance(c.P,c.m,q);
  if (dist < 1e-6L) { st().counters["points on a pole left out"]++; return true; }
  if (longitudinal(I,c.p,W) > 1e5L) { st().counters["points where nothing is left after cancellation left out"]++; return true; }
  bool cancels = ie == 5 || longitudinal(I,c.p,W) > 1000;
  dist = std::min(dist, (ldouble)1);
  auto where = [&] { return I.name + " (" + I.legs[0] + "," + I.legs[1] + " -> " + I.legs[2] + "," + I.legs[3] + ") " + show(I,c.p) + " at energy " + fmts(W) + ", cos(theta) " + fmts(COS[ic]) + ": "; };
  st().states++; st().traces++;
  try {
    x->set_momenta(q.q);
    ldouble a2 = x->amp2();
    std::vector<int> sp[4];
    feyn::Wave w[4][3];
    for (int i=0;i<4;i++) {
      sp[i] = c.P.spins(i);
      for (size_t h=0;h<sp[i].size();h++) w[i][h] = feyn::external(c.P.l[i], c.m, q.q[i], c.P.l[i].fermion ? sp[i][h] : sp[i][h]/2);
    }
    ldouble avg = c.P.initial_average()*c.P.identical();
    std::map<std::vector<int>,ldouble> full; ldouble fullbig = 0;
    for (size_t k=0; k<I.amps.size(); k++) {
      // Feynman strengths by the labels amp() takes
      std::map<std::vector<int>,ldouble> ref, lib;
      ldouble big = 0, rs = 0, ls = 0;
      for (size_t a=0;a<sp[0].size();a++) for (size_t b=0;b<sp[1].size();b++) for (size_t d=0;d<sp[2].size();d++) for (size_t e=0;e<sp[3].size();e++) {
        feyn::Wave v[4] = {w[0][a],w[1][b],w[2][d],w[3][e]};
        int lab[4] = {sp[0][a],sp[1][b],-sp[2][d],-sp[3][e]};
        std::vector<int> l; for (int i : I.labelled) l.push_back(lab[i]);
        ldouble r = c.parts[k].hel2(c.m, v, big);
        ref[l] += r; rs += r;
        if (!lib.count(l)) { ldouble n = std::norm(x->amp(k,lab)); lib[l] = n; ls += n; st().transitions++; outcome(hnum(n)); }
      }
      if (k == 0) full = lib, fullbig = big;
      bool share = shared_numerator(I,k);
      ldouble f = share ? rs/ls : colour(I,k);
      for (auto& kv : ref) {
        ldouble got = lib[kv.first]*f, far = cancels ? 1000 : 1, tol = far*1e-9L*kv.second + far*1e-12L*big/dist + (cancels ? 1e-7L*rs : 0) + 1e-24L;    // large cancellations at the highest energy
        if (share && !(ls > 0)) { fail(key, where() + "all helicity amplitudes vanish"); return false; }
        if (!(std::abs(got - kv.second) <= tol)) {
          if (I.name == "eeAZ" && ls == 0 && a2 == 0 && known("eeAZ-unwritten")) return true;
          fail(key, where() + I.amps[k] + "(" + join(kv.first) + ") squared" + (share ? " relative to the sum over spins" : "") + " gives " + fmt(share ? lib[kv.first]/ls : got) + ", Feynman diagrams " + fmt(share ? kv.second/rs : kv.second));
          return false;
        }
      }
      if (I.amps.size() == 1 && !share) {
        ldouble s = ls*f/avg;
        if (!(std::abs(s - a2) <= 1e-12L*std::abs(a2))) { fail(key, where() + "amp2() = " + fmt(a2) + " but its helicity amplitudes average to " + fmt(s)); return false; }
      }
    }
    // polarized
    for (size_t k=0; k<I.pols.size(); k++) {
      const Pol& o = I.pols[k];
      ldouble got = x->pol(k); st().transitions++; outcome(hnum(got));
      Ref r = reference(c.P, c.m, q, o.fix);
      bool massless = o.name == "amp2_Feynman";      // the textbook formula for massless quarks
      ldouble extra = massless ? 100*ms[2]*ms[2]/(W*W*dist) : 0;
      if (!(std::abs(got - r.sum) <= (1e-9L + extra + (cancels ? 1e-6L : 0))*r.sum + (cancels ? 1e-9L : 1e-12L)*r.big/dist + 1e-24L)) { fail(key, where() + o.name + "() = " + fmt(got) + ", Feynman diagrams give " + fmt(r.sum)); return false; }
      if (I.amps.size() == 1 && !massless) {           // the same as the partial average of the helicity amplitudes, in units of the full one
        ldouble part = 0, all = 0, n = 1;
        for (auto& kv : full) {
          bool in = true;
          for (size_t i=0;i<I.labelled.size();i++) { int f = o.fix[I.labelled[i]]; if (f && kv.first[i] != f) in = false; }
          all += kv.second; if (in) part += kv.second;
        }
        for (int i=0;i<2;i++) if (o.fix[i]) n *= c.P.l[i].nspin();
        ldouble want = all > 0 ? a2*n*part/all : 0;
        if (!(std::abs(got - want) <= 1e-10L*std::abs(want) + 1e-13L*a2)) { fail(key, where() + o.name + "() = " + fmt(got) + " but its helicity amplitudes average to " + fmt(want)); return false; }
      }
    }
    // asking again, and directly with the momenta
    if (x->amp2() != a2) { fail(key, where() + "amp2() changed after evaluating helicities"); return false; }
    if (I.has_mom) {
      Kin q2 = kin(ms, W*1.5L, -COS[ic], beams()[ib][1], beams()[ib][0]);
      x->set_momenta(q2.q); ldouble other = x->amp2();
      ldouble d = x->amp2_of(q.q); st().transitions += 3;
      if (!(std::abs(d - a2) <= 1e-12L*std::abs(a2))) { fail(key, where() + "amp2(momenta) = " + fmt(d) + ", after set_momenta it is " + fmt(a2) + " (the process had other momenta before, giving " + fmt(other) + ")"); return false; }
      Proc* y = I.make(I,c.p); ldouble d2 = y->amp2_of(q.q); delete y;
      if (!(std::abs(d2 - a2) <= 1e-12L*std::abs(a2))) { fail(key, where() + "amp2(momenta) of a new process = " + fmt(d2) + ", after set_momenta it is " + fmt(a2)); return false; }
    }
  } catch (const std::exception& e) { fail(key, where() + e.what()); return false; }
  return true;
}

static bool params(const Info& I, int mode, long k, int only_e = -1, int only_c = -1, int only_b = -1) {
  Choices ch = choices(I, opt().thorough ? 1 : 0, mode == 0, mode == 1);
  Point c; c.I = &I; c.p = point(ch,k); c.m = model(c.p,I); c.P.build(c.m,I.legs);
  for (auto& a : I.amps) c.parts.push_back(part(c.P,a));
  Proc* x = I.make(I,c.p);
  bool ok = true;
  for (int ie=0; ie<NENERGY && ok; ie++) for (int ic=0; ic<NCOS && ok; ic++) for (int ib=0; ib<(opt().thorough ? 5 : 2) && ok; ib++) {
    if (only_e >= 0 && (ie != only_e || ic != only_c || ib != only_b)) continue;
    ok = judge(c, x, I.name + ":" + std::to_string(mode) + ":" + std::to_string(k), ie, ic, ib);
  }
  delete x;
  return ok;
}
static void run_case(const std::string& key) {
  auto f = split(key,':'); auto v = ints(f[3]);
  params(*find(f[0]), atoi(f[1].c_str()), atol(f[2].c_str()), v[0], v[1], v[2]);
}

int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      int n = registry().size(), parts = 8;
      shards(n*parts, [&](int sh) {
        const Info& I = registry()[sh % n];
        bool ok = true;
        for (int mode=0; mode<2 && ok; mode++) {
          long tot = count(choices(I, opt().thorough ? 1 : 0, mode==0, mode==1));
          for (long k=sh/n; k<tot && ok; k+=parts) ok = params(I,mode,k);
        }
        if (sh < 6) { std::string s = I.name; for (auto& a : I.amps) s += " " + a; for (auto& a : I.pols) s += " " + a.name; sample(s); }
      });
    },
    run_case,
    [] { return std::map<std::string,std::string>{{"processes", std::to_string(registry().size()) + " classes, every amplitude function, every spin configuration, every squared amplitude"}, {"parameters", "full product of the masses and sW, and full product of couplings and sW"}, {"kinematics", "7 energies from just above the threshold to 3000 times it x 5 angles x beam directions"}}; });
}
