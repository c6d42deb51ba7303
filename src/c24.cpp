// C24: amplitudes do not depend on the unit of energy, and grow with the second power of the couplings.
// Powers of two make both exact in binary arithmetic.
// C25: a process rejects momenta that do not fit its masses, and is right again with momenta that do.
// C26: a process has no amplitude for spins its particles cannot have, and is right afterwards.
#include "smk.h"
#include <array>
#include <climits>
using namespace mc; using namespace sm;

// dim: power of energy (the functions of processes with three gluon colour structures return numerators, with four)
struct Answers { std::vector<cdouble> v; std::vector<bool> sq; std::vector<int> dim; ldouble scale = 0; };
static Answers ask(const Info& I, Proc* x, const Kin& k) {
  Answers a;
  std::vector<std::vector<int>> sp(4, std::vector<int>{0});
  for (int i : I.labelled) {
    const std::string& l = I.legs[i];
    sp[i] = l == "A" || l == "g" ? std::vector<int>{-2,2} : l == "Z" || l[0] == 'W' ? std::vector<int>{-2,0,2} : std::vector<int>{-1,1};
  }
  x->set_momenta(k.q);
  for (size_t n=0;n<I.amps.size();n++) for (int a0 : sp[0]) for (int a1 : sp[1]) for (int a2 : sp[2]) for (int a3 : sp[3]) {
    int d[4] = {a0,a1,a2,a3};
    a.v.push_back(x->amp(n,d)); a.sq.push_back(false); a.dim.push_back(I.amps[n].find("Num") != std::string::npos || I.name == "gggg" ? 4 : 0); a.scale = std::max(a.scale, std::abs(a.v.back()));
  }
  a.v.push_back(x->amp2()); a.sq.push_back(true);
  for (size_t n=0;n<I.pols.size();n++) a.v.push_back(x->pol(n)), a.sq.push_back(true);
  if (I.has_mom) a.v.push_back(x->amp2_of(k.q)), a.sq.push_back(true);
  return a;
}
static const ldouble COS[] = {0.3L, 0, -0.8L, 1, -1};
static Choices grid(const Info& I) {
  Choices c = choices(I, 0, true, false);
  if (!opt().thorough || opt().prop == "C26") for (size_t i=0;i<c.par.size();i++) { size_t n = is_mass(c.par[i]) ? 2 : 1; if (c.val[i].size() > n) c.val[i].resize(n); }
  return c;
}
// changes: powers of four of the unit of energy, then powers of two of the couplings
static const std::vector<int>& units() {
  static std::vector<int> q = {-400,-100,-40,-20,-10,-4,-2,2,4,10,20,40,100,400}, t;
  if (t.empty()) for (int i=-600;i<=600;i+=2) if (i) t.push_back(i);
  return opt().thorough ? t : q;
}
static const std::vector<int>& strengths() { static std::vector<int> q = {-50,-7,-1,1,3,20}, t = {-200,-100,-50,-20,-10,-7,-3,-2,-1,1,2,3,5,8,20,40,100}; return opt().thorough ? t : q; }

static bool judge(const Info& I, long k, int ie, int ic, int ib, int width, int only = -1) {
  Par p = point(grid(I),k);
  for (int x : {WW,WZ,WH}) p[x] = width ? 0.75L : 0;
  feyn::Model m = model(p,I);
  feyn::Process P; P.build(m,I.legs);
  ldouble ms[4]; leg_masses(P,m,ms);
  Kin z = kin(ms, energy(ms, ie, I.uses(MW) ? p[MW] : 20), COS[ic], beams()[ib][0], beams()[ib][1]);
  if (!(pole_distance(P,m,z) > 1e-14L)) { st().counters["points on a pole left out"]++; return true; }
  std::string pre = I.name + ":" + join({(int)k,ie,ic,ib,width}) + ":";
  at(pre + "0"); st().states++;
  Answers want; { Proc* x = I.make(I,p); want = ask(I,x,z); delete x; }
  int nu = units().size(), n = nu + strengths().size();
  for (int i=0;i<n;i++) {
    if (only >= 0 && i != only) continue;
    std::string key = pre + std::to_string(i); at(key); st().traces++; st().transitions++;
    Par q = p; Kin y = z; ldouble f = 1, ff = 1; int unit = 0; std::string what;
    if (i < nu) {
      unit = units()[i];
      ldouble u = std::ldexp((ldouble)1, units()[i]); what = "all masses, widths and momenta times 2^" + std::to_string(units()[i]);
      for (int j : {VEV,MW,MH,WW,WZ,WH}) q[j] *= u;
      for (int j=ME;j<=MB;j++) q[j] *= u;
      for (auto& v : y.q) for (auto& c : v) c *= u;
    } else {
      int e = strengths()[i-nu]; ldouble u = std::ldexp((ldouble)1, e); what = "all couplings times 2^" + std::to_string(e);
      q[E] *= u; q[GS] *= u; q[VEV] /= u; f = u*u; ff = f*f;
    }
    ldouble f0 = f; Answers got;
    try { Proc* x = I.make(I,q); got = ask(I,x,y); delete x; }
    catch (const std::exception& e) { fail(key, I.name + " " + show(I,p) + " with " + what + ": " + e.what()); return false; }
    for (size_t j=0;j<want.v.size();j++) {
      if (j < want.dim.size()) f = want.dim[j] ? std::ldexp((ldouble)1, unit*want.dim[j]) * f0 : f0;
      cdouble w = want.v[j]*(want.sq[j] ? ff : f);
      ldouble tol = (want.sq[j] ? ff*std::abs(want.v[j]) : f*want.scale)*1e-14L;
      outcome(hnum(std::abs(want.v[j])));
      if (!(std::abs(got.v[j]-w) <= tol)) {
        fail(key, I.name + " " + show(I,p) + ": with " + what + " the " + (want.sq[j] ? "squared amplitude" : "amplitude") + " number " + std::to_string(j) + " is " + fmt(got.v[j]) + " instead of " + fmt(w));
        return false;
      }
    }
  }
  return true;
}

// ---- C25
struct Bad { int leg; int how; };
static const char* HOW[] = {"the energy too big by 1e-3", "the energy too small by 1e-3", "the first component changed", "the second component changed", "the third component changed", "the energy negative", "NaN for the energy", "NaN for a component", "infinite energy", "zero momentum", "twice the momentum"};
static const int NHOW = 11;
static bool spoil(Kin& k, const ldouble ms[4], int leg, int how) {    // false if the change leaves the momentum on shell
  ldouble* q = k.q[leg], e = q[0];
  switch (how) {
    case 0: q[0] *= 1.001L; break; case 1: q[0] *= 0.999L; break;
    case 2: case 3: case 4: q[how-1] += (q[how-1] < 0 ? -1 : 1)*0.125L*e; break;
    case 5: return false;
    case 6: q[0] = NAN; break; case 7: q[2] = NAN; break; case 8: q[0] = INFINITY; break;
    case 9: q[0] = q[1] = q[2] = q[3] = 0; break;
    case 10: for (int i=0;i<4;i++) q[i] *= 2; break;
  }
  ldouble s = q[0]*q[0]-q[1]*q[1]-q[2]*q[2]-q[3]*q[3]-ms[leg]*ms[leg];
  return !(std::abs(s) <= 1e-6L*std::max((ldouble)1,q[0]*q[0]));
}
// via: 0 as built, 1 after set_masses from other masses, 2 amp2(momenta)
static bool reject(const Info& I, long k, int ie, int ib, int via, int leg, int how) {
  std::string key = I.name + ":" + join({(int)k,ie,ib,via,leg,how});
  Par p = point(grid(I),k); for (int x : {WW,WZ,WH}) p[x] = 0.75L;
  feyn::Model m = model(p,I);
  feyn::Process P; P.build(m,I.legs);
  ldouble ms[4]; leg_masses(P,m,ms);
  Kin z = kin(ms, energy(ms, ie, I.uses(MW) ? p[MW] : 20), 0.3L, beams()[ib][0], beams()[ib][1]), bad = z;
  if (!(pole_distance(P,m,z) > 1e-14L)) return true;
  if (!spoil(bad,ms,leg,how)) return true;
  at(key); st().states++; st().traces++; st().transitions++;
  std::string w = I.name + " " + show(I,p) + ", momentum " + std::to_string(leg+1) + " with " + HOW[how] + (via == 1 ? ", after set_masses" : via == 2 ? ", in amp2(momenta)" : "");
  Proc* x; if (via == 1) { Par o = p; for (int i : I.masses) o[i] = p[i]*1.5L + 3; x = I.make(I,o); x->set_masses(p); } else x = I.make(I,p);
  ldouble want; { Proc* y = I.make(I,p); y->set_momenta(z.q); want = y->amp2(); delete y; }
  bool ok = true;
  for (int before=0;before<2 && ok;before++) {      // first with, then without momenta in force
    try {
      if (before == 0) x->set_momenta(z.q), x->amp2();
      bool threw = false;
      try { if (via == 2) x->amp2_of(bad.q); else x->set_momenta(bad.q); } catch (const std::exception&) { threw = true; }
      if (!threw) { fail(key, w + " is accepted"); ok = false; break; }
      x->set_momenta(z.q); ldouble got = x->amp2(); outcome(hnum(got));
      if (!(std::abs(got-want) <= 1e-12L*std::abs(want))) { fail(key, w + " is rejected, but then the right momenta give " + fmt(got) + " instead of " + fmt(want)); ok = false; }
    } catch (const std::exception& e) { fail(key, w + ": the right momenta are rejected: " + e.what()); ok = false; }
  }
  delete x;
  return ok;
}

// ---- C26
// labels of a leg: the right ones first, then those the particle cannot have (odd labels of vectors mean nothing and are not asked)
static std::vector<int> labels(const Info& I, int leg, size_t& right) {
  right = 1;
  if (std::find(I.labelled.begin(), I.labelled.end(), leg) == I.labelled.end()) return {0};
  const std::string& l = I.legs[leg];
  right = 2;
  if (l == "A" || l == "g") return {-2,2,0};
  if (l == "Z" || l[0] == 'W') { right = 3; return {-2,0,2}; }
  if (opt().thorough) return {-1,1,0,-2,2,-3,3,4,-5,INT_MIN,INT_MAX};
  return {-1,1,0,-2,2,-3,3};
}
static bool wrong_spins(const Info& I, long k, int ie, int ib) {
  std::string pre = I.name + ":" + join({(int)k,ie,ib}); at(pre);
  Par p = point(grid(I),k); for (int x : {WW,WZ,WH}) p[x] = 0.75L;
  feyn::Model m = model(p,I);
  feyn::Process P; P.build(m,I.legs);
  ldouble ms[4]; leg_masses(P,m,ms);
  Kin z = kin(ms, energy(ms, ie, I.uses(MW) ? p[MW] : 20), 0.3L, beams()[ib][0], beams()[ib][1]);
  if (!(pole_distance(P,m,z) > 1e-14L)) return true;
  std::vector<int> sp[4]; size_t right[4];
  for (int i=0;i<4;i++) sp[i] = labels(I,i,right[i]);
  Proc* x = I.make(I,p); x->set_momenta(z.q);
  // the right answers, from a process that is not asked anything else
  std::vector<std::vector<cdouble>> want(I.amps.size()); std::vector<std::array<int,4>> good; std::vector<cdouble> sums;
  for (int a : std::vector<int>(sp[0].begin(),sp[0].begin()+right[0])) for (int b : std::vector<int>(sp[1].begin(),sp[1].begin()+right[1])) for (int c : std::vector<int>(sp[2].begin(),sp[2].begin()+right[2])) for (int d : std::vector<int>(sp[3].begin(),sp[3].begin()+right[3])) good.push_back({{a,b,c,d}});
  { Proc* y = I.make(I,p); y->set_momenta(z.q);
    for (size_t n=0;n<I.amps.size();n++) for (auto& g : good) want[n].push_back(y->amp(n,g.data()));
    delete y; y = I.make(I,p); y->set_momenta(z.q); sums.push_back(y->amp2()); for (size_t n=0;n<I.pols.size();n++) sums.push_back(y->pol(n)); delete y; }
  ldouble scale = 0; for (auto& w : want) for (cdouble v : w) scale = std::max(scale, std::abs(v));
  bool ok = true; size_t turn = 0;
  for (size_t n=0;n<I.amps.size() && ok;n++)
    for (size_t a=0;a<sp[0].size() && ok;a++) for (size_t b=0;b<sp[1].size() && ok;b++) for (size_t c=0;c<sp[2].size() && ok;c++) for (size_t d=0;d<sp[3].size() && ok;d++) {
      if (a < right[0] && b < right[1] && c < right[2] && d < right[3]) continue;
      st().traces++; st().states++; st().transitions++;
      int s[4] = {sp[0][a],sp[1][b],sp[2][c],sp[3][d]};
      std::string w = I.name + " " + show(I,p) + ", " + I.amps[n] + " with twice the spins " + join({s[0],s[1],s[2],s[3]});
      try {
        bool threw = false; cdouble v = 0;
        try { v = x->amp(n,s); } catch (const std::exception&) { threw = true; }
        outcome(threw);
        if (!threw && v != cdouble(0,0)) { fail(pre, w + " is " + fmt(v) + ", though a particle cannot have this spin"); ok = false; break; }
        // then a right question, in turn
        size_t nn = turn % I.amps.size(), g = turn / I.amps.size() % good.size(); turn++;
        cdouble r = x->amp(nn,good[g].data()); outcome(hnum(std::abs(r))); st().transitions++;
        if (!(std::abs(r-want[nn][g]) <= 1e-14L*scale)) { fail(pre, w + ", then " + I.amps[nn] + " with spins " + join({good[g][0],good[g][1],good[g][2],good[g][3]}) + " is " + fmt(r) + " instead of " + fmt(want[nn][g])); ok = false; }
      } catch (const std::exception& e) { fail(pre, w + ", then right spins: " + e.what()); ok = false; }
    }
  if (ok) try {
    if (!(std::abs(x->amp2()-sums[0]) <= 1e-14L*std::abs(sums[0]))) { fail(pre, I.name + " " + show(I,p) + ": after questions with wrong spins amp2 is different"); ok = false; }
    for (size_t n=0;n<I.pols.size() && ok;n++) if (!(std::abs(x->pol(n)-sums[n+1]) <= 1e-14L*std::abs(sums[n+1]))) { fail(pre, I.name + ": after questions with wrong spins " + I.pols[n].name + " is different"); ok = false; }
  } catch (const std::exception& e) { fail(pre, I.name + ": after questions with wrong spins: " + e.what()); ok = false; }
  delete x;
  return ok;
}
static void run_case(const std::string& key) {
  auto f = split(key,':'); auto v = ints(f[1]);
  if (opt().prop == "C24") judge(*find(f[0]), v[0], v[1], v[2], v[3], v[4], atoi(f[2].c_str()));
  else if (opt().prop == "C26") wrong_spins(*find(f[0]), v[0], v[1], v[2]);
  else reject(*find(f[0]), v[0], v[1], v[2], v[3], v[4], v[5]);
}

int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      int n = registry().size(), parts = 4;
      bool c24 = opt().prop == "C24";
      shards(n*parts, [&](int sh) {
        const Info& I = registry()[sh % n];
        long tot = count(grid(I));
        bool ok = true; int c = 0;
        auto mine = [&] { return ok && c++ % parts == sh / n; };
        if (c24) { for (long k=0;k<tot;k++) for (int ie=0;ie<NENERGY;ie++) for (int ic=0;ic<5;ic++) for (int ib=0;ib<(opt().thorough ? 5 : 2);ib++) for (int w=0;w<2;w++) if (mine()) ok = judge(I,k,ie,ic,ib,w); }
        else if (opt().prop == "C26") { for (long k=0;k<tot;k++) for (int ie : {0,2,4}) for (int ib=0;ib<(opt().thorough ? 5 : 2);ib++) if (mine()) ok = wrong_spins(I,k,ie,ib); }
        else for (long k=0;k<tot;k++) for (int ie : {0,2,4}) for (int ib=0;ib<(opt().thorough ? 5 : 2);ib++) for (int via=0;via<3;via++) { if ((via == 1 && !I.has_masses) || (via == 2 && !I.has_mom)) continue; for (int l=0;l<4;l++) for (int h=0;h<NHOW;h++) if (mine()) ok = reject(I,k,ie,ib,via,l,h); }
        if (sh < 3) sample(I.name + (c24 ? " with all masses, widths and momenta times 2^-40" : opt().prop == "C26" ? ", each leg with each spin it cannot have" : std::string(", momentum 3 with ") + HOW[sh]));
      });
    },
    run_case,
    [] { return opt().prop == "C24" ? std::map<std::string,std::string>{{"processes", std::to_string(registry().size()) + " classes, every amplitude, squared amplitude and polarized form"}, {"units", std::to_string(units().size()) + " powers of four from 2^" + std::to_string(units()[0]) + " to 2^" + std::to_string(units().back())}, {"couplings", std::to_string(strengths().size()) + " powers of two"}, {"kinematics", "7 energies from just above the threshold to 3000 times it x 5 angles including forward and backward x beam directions, with and without widths"}}
      : opt().prop == "C26" ? std::map<std::string,std::string>{{"processes", std::to_string(registry().size()) + " classes, every amplitude function"}, {"spins", "every assignment in which at least one leg has a spin it cannot have: photons and gluons 0, fermions every label from -3 to 3 (thorough: and some beyond)"}, {"history", "all of them one after another on one object, each followed by a right one"}}
      : std::map<std::string,std::string>{{"processes", std::to_string(registry().size()) + " classes"}, {"wrong momenta", "each of 4 legs x " + std::to_string(NHOW-1) + " changes"}, {"ways", "as built, after set_masses, amp2(momenta)"}}; });
}
