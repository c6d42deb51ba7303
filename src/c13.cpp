// C13: every squared amplitude equals the Feynman-diagram result.
#include "smk.h"
using namespace mc; using namespace sm;

static const ldouble COS[] = {0.3L, -0.7L, 0, 0.95L, -0.9995L, 1, -1};
static const int NCOS = 7;

// mode 0: all masses at the first couplings; mode 1: all couplings at the first masses (sW in both)
static bool judge(const Info& I, int mode, long k, const Par& p, const feyn::Process& P, const feyn::Model& m, Proc* x, int ie, int ic, int ib) {
  std::string key = I.name + ":" + std::to_string(mode) + ":" + std::to_string(k) + ":" + join({ie,ic,ib});
  at(key);
  ldouble ms[4]; leg_masses(P,m,ms);
  ldouble W = energy(ms, ie, I.uses(MW) ? p[MW] : 20);
  Kin q = kin(ms, W, COS[ic], beams()[ib][0], beams()[ib][1]);
  ldouble dist = pole_distance(P,m,q);
  if (dist < 1e-6L) { st().counters["points on a pole left out"]++; return true; }
  if (longitudinal(I,p,W) > 1e5L) { st().counters["points where nothing is left after cancellation left out"]++; return true; }
  st().states++; st().traces++; st().transitions += 2;
  Ref r = reference(P,m,q);
  ldouble got;
  try { x->set_momenta(q.q); got = x->amp2(); }
  catch (const std::exception& e) { fail(key, I.name + " " + show(I,p) + " W=" + fmts(W) + " cos=" + fmts(COS[ic]) + ": " + e.what()); return false; }
  outcome(hnum(got));
  ldouble err = std::abs(got-r.sum), far = ie == 5 || longitudinal(I,p,W) > 1000 ? 1000 : 1, tol = far*1e-9L*std::abs(r.sum) + far*1e-12L*r.big/std::min(dist,(ldouble)1) + 1e-24L;    // large cancellations at the highest energy
  if (!(err <= tol)) {
    if (I.name == "eeAZ" && got == 0 && known("eeAZ-unwritten")) return true;
    fail(key, I.name + " (" + I.legs[0] + "," + I.legs[1] + " -> " + I.legs[2] + "," + I.legs[3] + ") " + show(I,p) + " at energy " + fmts(W) + ", cos(theta) " + fmts(COS[ic]) + ": amp2 = " + fmt(got) + ", Feynman diagrams give " + fmt(r.sum));
    return false;
  }
  return true;
}

static bool params(const Info& I, int mode, long k, int only_e = -1, int only_c = -1, int only_b = -1) {
  Choices c = choices(I, opt().thorough ? 1 : 0, mode == 0, mode == 1);
  Par p = point(c,k);
  feyn::Model m = model(p,I);
  feyn::Process P; P.build(m,I.legs);
  Proc* x = I.make(I,p);
  bool ok = true;
  for (int ie=0; ie<NENERGY && ok; ie++) for (int ic=0; ic<NCOS && ok; ic++) for (int ib=0; ib<(opt().thorough ? 5 : 2) && ok; ib++) {
    if (only_e >= 0 && (ie != only_e || ic != only_c || ib != only_b)) continue;
    ok = judge(I,mode,k,p,P,m,x,ie,ic,ib);
  }
  delete x;
  return ok;
}

static void run_case(const std::string& key) {
  auto f = split(key,':'); auto v = ints(f[3]);
  params(*find(f[0]), atoi(f[1].c_str()), atol(f[2].c_str()), v[0], v[1], v[2]);
}

int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      int n = registry().size(), parts = 8;
      shards(n*parts, [&](int sh) {
        int i = sh % n, part = sh / n, bad = 0;
        const Info& I = registry()[i];
        for (int mode=0; mode<2; mode++) {
          long tot = count(choices(I, opt().thorough ? 1 : 0, mode==0, mode==1));
          for (long k=part; k<tot && !bad; k+=parts) if (!params(I,mode,k)) bad++;
        }
        if (sh < 6) sample(I.name + " " + show(I, point(choices(I,0,true,false),3)));
      });
    },
    run_case,
    [] { return std::map<std::string,std::string>{{"processes", std::to_string(registry().size()) + " classes"}, {"parameters", "full product of the masses and sW, and full product of couplings and sW, over alphabets of 2 to 5 values"}, {"kinematics", "7 energies from just above the threshold to 3000 times it x 7 angles including forward and backward x beam directions"}}; });
}
