// C17: widths enter only through Breit-Wigner propagators, and always do.
#include "smk.h"
using namespace mc; using namespace sm;
typedef std::complex<ldouble> cd;

static const int WPAR[] = {WW, WZ, WH};
static const char* WNAME[] = {"W", "Z", "h"};
static bool is(int b, int x) { return x == 0 ? b == feyn::WP || b == feyn::WM : x == 1 ? b == feyn::Z : b == feyn::H; }
static ldouble mass_of(const feyn::Model& m, int x) { return x == 0 ? m.mW : x == 1 ? m.mZ() : m.mh; }
static void set_width(Par& p, int x, ldouble w) { p[WPAR[x]] = w; }

static std::vector<std::vector<int>> spins(const feyn::Process& P, const Info& I) {
  std::vector<std::vector<int>> sp(4, std::vector<int>{0}), r;
  for (int i : I.labelled) sp[i] = P.spins(i);
  for (int a : sp[0]) for (int b : sp[1]) for (int c : sp[2]) for (int d : sp[3]) r.push_back({a,b,c,d});
  return r;
}
static ldouble invariant(const Kin& k, char ch) {
  ldouble v[4]; int j = ch == 'S' ? 1 : ch == 'T' ? 2 : 3;
  for (int i=0;i<4;i++) v[i] = k.q[0][i] + (j == 1 ? k.q[j][i] : -k.q[j][i]);
  return feyn::dot(v,v);
}

// solve a small complex linear system
static std::vector<cd> solve(std::vector<std::vector<cd>> A, std::vector<cd> b) {
  int n = b.size();
  for (int i=0;i<n;i++) {
    int p = i; for (int r=i;r<n;r++) if (std::abs(A[r][i]) > std::abs(A[p][i])) p = r;
    std::swap(A[i],A[p]); std::swap(b[i],b[p]);
    for (int r=0;r<n;r++) if (r != i) { cd f = A[r][i]/A[i][i]; for (int c=i;c<n;c++) A[r][c] -= f*A[i][c]; b[r] -= f*b[i]; }
  }
  for (int i=0;i<n;i++) b[i] /= A[i][i];
  return b;
}

static const ldouble FAC[] = {0.7L, 2.1L, 0.2L, 5, 0, 1.3L, 30};     // widths in units of the distance from the pole over the mass
static const int NFAC = 7;
static const ldouble COS[] = {0.3L, -0.7L, 0.95L};

struct Cfg { const Info* I; Par p; feyn::Model m; feyn::Process P; };
static std::string where(const Cfg& c, ldouble W, ldouble cs) { return c.I->name + " (" + c.I->legs[0] + "," + c.I->legs[1] + " -> " + c.I->legs[2] + "," + c.I->legs[3] + ") " + show(*c.I,c.p) + " at energy " + fmts(W) + ", cos(theta) " + fmts(cs) + ": "; }

// other: widths of the other particles on or off; via: how the masses get in
static bool form(Cfg c, const std::string& key, int x, int ie, int ic, int other, int via) {
  at(key);
  const Info& I = *c.I;
  for (int y=0;y<3;y++) if (y != x && I.uses(WPAR[y])) set_width(c.p, y, other ? 3.1L + y : 0);
  ldouble ms[4]; leg_masses(c.P,c.m,ms);
  ldouble W = energy(ms, ie, I.uses(MW) ? c.p[MW] : 20), M = mass_of(c.m,x);
  Kin q = kin(ms, W, COS[ic], beams()[1][0], beams()[1][1]);
  if (pole_distance(c.P,c.m,q) < 1e-6L) { st().counters["points on a pole left out"]++; return true; }
  st().states++; st().traces++;
  auto sp = spins(c.P,I);
  std::vector<std::vector<std::vector<cd>>> A(NFAC);      // width, amplitude function, spins
  std::vector<ldouble> wid;
  ldouble D0 = 0; for (char ch : {'S','T','U'}) D0 = std::max(D0, std::abs(invariant(q,ch)-M*M));
  for (int i=0;i<NFAC;i++) {
    Par p = c.p; wid.push_back(FAC[i]*D0/M); set_width(p, x, wid[i]);
    Proc* X;
    if (via && I.has_masses) { Par o = p; for (int m : I.masses) o[m] = alphabet(m,0)[1]*0.9L; X = I.make(I,o); X->set_masses(p); } else X = I.make(I,p);
    X->set_momenta(q.q);
    A[i].resize(I.amps.size());
    for (size_t k=0;k<I.amps.size();k++) for (auto& s : sp) { A[i][k].push_back(X->amp(k,&s[0])); st().transitions++; outcome(hnum(std::abs(A[i][k].back()))); }
    delete X;
  }
  for (size_t k=0;k<I.amps.size();k++) {
    feyn::Process Q = part(c.P,I.amps[k]);
    std::string chan;
    for (char ch : {'S','T','U'}) for (auto& d : Q.dia) if (!d.contact && (d.k1 == feyn::VEC || d.k1 == feyn::SCA) && is(d.id1,x) && channel(d) == ch) { chan += ch; break; }
    int n = chan.size();
    ldouble scale = 0; for (auto& a : A) for (auto& z : a[k]) scale = std::max(scale, std::abs(z));
    std::vector<ldouble> res(n,0);
    for (size_t h=0;h<sp.size();h++) {
      std::vector<std::vector<cd>> M0; std::vector<cd> b;
      auto row = [&](int i) { std::vector<cd> r = {cd(1)}; for (char ch : chan) r.push_back(ldouble(D0)/cd(invariant(q,ch)-M*M, -M*wid[i])); return r; };
      for (int i=0;i<=n;i++) { M0.push_back(row(i)); b.push_back(A[i][k][h]); }
      auto s = solve(M0,b);
      for (int i=n+1;i<NFAC;i++) {
        auto r = row(i); cd want = 0; for (int j=0;j<=n;j++) want += r[j]*s[j];
        if (!(std::abs(want-A[i][k][h]) <= 1e-8L*scale)) {
          fail(key, where(c,W,COS[ic]) + I.amps[k] + "(" + join(sp[h]) + ") with " + WNAME[x] + " width " + fmts(wid[i]) + " is " + fmt(A[i][k][h]) + ", but the Breit-Wigner form through its values at other widths (" + (n ? "channels " + chan : "no channel has this particle") + ") gives " + fmt(want));
          return false;
        }
      }
      for (int j=0;j<n;j++) res[j] = std::max(res[j], std::abs(s[j+1])*D0/std::abs(invariant(q,chan[j])-M*M));
    }
    // every channel that carries this particle must feel its width
    for (int j=0;j<n;j++) {
      feyn::Process R = Q; R.dia.clear();
      for (auto& d : Q.dia) if (!d.contact && (d.k1 == feyn::VEC || d.k1 == feyn::SCA) && is(d.id1,x) && channel(d) == chan[j]) R.dia.push_back(d);
      Ref a = reference(R,c.m,q), all = reference(Q,c.m,q);
      if (a.sum > 1e-8L*(all.sum + all.big) && !(res[j] > 1e-9L*scale)) {
        fail(key, where(c,W,COS[ic]) + I.amps[k] + " does not depend on the " + WNAME[x] + " width in the " + chan[j] + " channel, where a " + WNAME[x] + " is exchanged");
        return false;
      }
    }
  }
  return true;
}

// on and around the peak in the s channel
static bool peak(Cfg c, const std::string& key, int x, int off, int ic, int via) {
  at(key);
  const Info& I = *c.I;
  ldouble ms[4]; leg_masses(c.P,c.m,ms);
  ldouble M = mass_of(c.m,x), w = 1e-7L*M;
  if (threshold(ms) > 0.98L*M) return true;
  bool has = false; for (auto& d : c.P.dia) if (!d.contact && (d.k1 == feyn::VEC || d.k1 == feyn::SCA) && is(d.id1,x) && channel(d) == 'S') has = true;
  if (!has) return true;
  static const ldouble OFF[] = {0, 1, -1, 3, -0.4L};
  ldouble W = std::sqrt(M*M + OFF[off]*M*w);
  Kin q = kin(ms, W, COS[ic], beams()[1][0], beams()[1][1]);
  Par p = c.p; set_width(p,x,w);
  feyn::Model m = c.m; (x == 0 ? m.wW : x == 1 ? m.wZ : m.wh) = w;
  st().states++; st().traces++;
  // other poles must be far away
  feyn::Process rest = c.P; rest.dia.clear(); for (auto& d : c.P.dia) if (!(!d.contact && (d.k1 == feyn::VEC || d.k1 == feyn::SCA) && is(d.id1,x) && channel(d) == 'S')) rest.dia.push_back(d);
  if (pole_distance(rest,c.m,q) < 1e-4L) return true;
  Ref r = reference(c.P,m,q);
  Ref bg = reference(rest,m,q);
  if (r.sum < 1e8L*bg.sum + 1e-30L) return true;             // the peak does not stand out (couplings of very light particles)
  Proc* X;
  if (via && I.has_masses) { Par o = p; for (int k : I.masses) o[k] = alphabet(k,0)[1]*0.9L; X = I.make(I,o); X->set_masses(p); } else X = I.make(I,p);
  X->set_momenta(q.q); ldouble got = X->amp2(); delete X; st().transitions++; outcome(hnum(got));
  st().counters["points on a peak"]++;
  if (!(std::abs(got-r.sum) <= 1e-3L*r.sum)) {
    fail(key, where(c,W,COS[ic]) + "on the " + WNAME[x] + " peak with width " + fmts(w) + " amp2 = " + fmt(got) + ", the pole gives " + fmt(r.sum));
    return false;
  }
  return true;
}

static Choices grid(const Info& I) {
  Choices c = choices(I, opt().thorough ? 1 : 0, true, false);
  if (!opt().thorough) for (size_t i=0;i<c.par.size();i++) if (c.par[i] >= ME && c.par[i] <= MB) c.val[i].resize(2);
  return c;
}
static bool params(const Info& I, long k, const std::vector<int>& only = {}) {
  Choices ch = grid(I);
  Cfg c; c.I = &I; c.p = point(ch,k); c.m = model(c.p,I); c.P.build(c.m,I.legs);
  std::string base = I.name + ":" + std::to_string(k) + ":";
  auto want = [&](const std::vector<int>& v) { return only.empty() || only == v; };
  for (int x=0;x<3;x++) {
    if (!I.uses(WPAR[x])) continue;
    for (int ie=0;ie<NENERGY;ie++) for (int ic=0;ic<3;ic++) for (int o=0;o<2;o++) for (int via=0;via<2;via++) {
      std::vector<int> v = {0,x,ie,ic,o,via};
      if (!only.empty() ? only != v : (!opt().thorough && (via && (o || ic)))) continue;
      if (!form(c, base + join(v), x, ie, ic, o, via)) return false;
    }
    for (int off=0;off<5;off++) for (int ic=0;ic<3;ic++) for (int via=0;via<2;via++) {
      std::vector<int> v = {1,x,off,ic,via};
      if (want(v) && !peak(c, base + join(v), x, off, ic, via)) return false;
    }
  }
  return true;
}
static void run_case(const std::string& key) { auto f = split(key,':'); params(*find(f[0]), atol(f[1].c_str()), ints(f[2])); }

int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      int n = registry().size(), parts = 8;
      shards(n*parts, [&](int sh) {
        const Info& I = registry()[sh % n];
        if (!I.uses(WW) && !I.uses(WZ) && !I.uses(WH)) return;
        long tot = count(grid(I));
        bool ok = true;
        for (long k=sh/n; k<tot && ok; k+=parts) ok = params(I,k);
        if (sh < 5) sample(I.name + " " + show(I,point(choices(I,0,true,false),1)));
      });
    },
    run_case,
    [] { return std::map<std::string,std::string>{{"processes", "all classes with a width, every amplitude function and spin configuration"}, {"widths", "7 values from zero to 30 times the distance from the pole; the other widths zero or not; masses from the constructor or set_masses"}, {"peaks", "5 positions on and around every s-channel peak x 3 angles"}}; });
}
