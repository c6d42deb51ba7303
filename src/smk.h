// Parameters, kinematics and the Feynman reference shared by the checks of the Standard Model processes.
#pragma once
#include <cstring>
#include <set>
#include "mc.h"
#include "feyn.h"
#include "sm_registry.h"

namespace sm {

typedef feyn::ld ld;          // the reference is in long double whatever the library uses

inline feyn::Model model(const Par& p, const Info& I) {
  feyn::Model m;
  m.e = p[E]; m.gs = p[GS]; m.sw = p[SW]; m.mW = p[MW]; m.mh = p[MH];
  if (I.uses(VEV)) m.vev = p[VEV];
  static const int f[][2] = {{feyn::U,MU},{feyn::D,MD},{feyn::C,MC},{feyn::S,MS},{feyn::T,MT},{feyn::B,MB},{feyn::E,ME},{feyn::M,MMU},{feyn::L,MTAU}};
  for (auto& x : f) m.mf[x[0]] = p[x[1]];
  if (I.qed) m.only = 1u << feyn::PH;
  return m;
}

inline bool is_mass(int i) { return i == MW || i == MH || (i >= ME && i <= MB); }

// values of each parameter
inline std::vector<ldouble> alphabet(int par, int level) {
  std::vector<ldouble> r;
  int k = par - ME;                                  // fermions: light, heavy, a value they share with each other and the W, heavy in the opposite order
  if (par >= ME && par <= MB) { r = {0.02L + 0.003L*k, 61 + 7.5L*k, 80.385L, 190 - 3.25L*k}; if (level) r.push_back(1.5L + 0.2L*k); }
  else if (par == MW) { r = {80.385L, 30, 170}; if (level) r.push_back(7); }
  else if (par == MH) { r = {125, 20, 400}; if (level) r.push_back(1.25L), r.push_back(80.385L); }
  else if (par == SW) { r = {0.474L, 0.28L, 0.83L}; if (level) r.push_back(0.96L), r.push_back(0.05L); }
  else if (par == E) r = {0.31333L, 1.1L, 0.05L};
  else if (par == GS) r = {1.238L, 0.4L};
  else if (par == VEV) r = {246, 61};
  else r = {0};
  return r;
}
inline const std::vector<int>& par_order() {
  static std::vector<int> o = {E,GS,SW,VEV,MW,MH,ME,MMU,MTAU,MU,MD,MS,MC,MT,MB};
  return o;
}
static const char* par_name[] = {"e","gs","sW","vev","MW","mh","me","mmu","mtau","mu","md","ms","mc","mt","mb","WW","WZ","Wh"};

// the parameters this process has, as choices from the alphabets
struct Choices { std::vector<int> par; std::vector<std::vector<ldouble>> val; };
inline Choices choices(const Info& I, int level, bool masses, bool couplings) {
  Choices c;
  for (int p : par_order()) {
    if (!I.uses(p)) continue;
    auto a = alphabet(p, level);
    if (p == SW ? false : is_mass(p) ? !masses : !couplings) a.resize(1);
    c.par.push_back(p); c.val.push_back(a);
  }
  return c;
}
inline long count(const Choices& c) { long n = 1; for (auto& v : c.val) n *= v.size(); return n; }
inline Par point(const Choices& c, long k) {
  Par p = {};
  p[E]=0.31333L; p[GS]=1; p[SW]=0.474L; p[VEV]=246; p[MW]=80.385L; p[MH]=125;
  for (int i = ME; i <= MB; i++) p[i] = 1;
  for (size_t i = 0; i < c.par.size(); i++) { p[c.par[i]] = c.val[i][k % c.val[i].size()]; k /= c.val[i].size(); }
  return p;
}
inline std::string show(const Info& I, const Par& p) {
  std::string s;
  for (int c : I.ctor) s += (s.empty() ? "" : " ") + std::string(par_name[c]) + "=" + mc::fmts(p[c]);
  return s;
}

struct Kin { ld q[4][4]; };
// momenta of masses m[] at centre-of-mass energy W and scattering angle with cosine c; beam along the unit vector a, plane towards b (unit, orthogonal)
inline Kin kin(const ld m[4], ld W, ld c, const ld a[3], const ld b[3]) {
  Kin k;
  ld s = std::sqrt((1-c)*(1+c));
  auto mom = [&](ld x, ld y) { ld v = (W-x-y)*(W+x+y)*(W-x+y)*(W+x-y); return v > 0 ? std::sqrt(v)/(2*W) : ld(0); };
  ld pi = mom(m[0],m[1]), po = mom(m[2],m[3]);
  for (int i=0;i<4;i++) {
    ld p = i < 2 ? pi : po;
    k.q[i][0] = std::sqrt(p*p+m[i]*m[i]);
    for (int j=0;j<3;j++) { ld n = i < 2 ? a[j] : c*a[j]+s*b[j]; k.q[i][j+1] = (i%2 ? -p : p)*n; }
  }
  return k;
}
inline const ld (*beams())[2][3] {
  static const ld A[][2][3] = {
    {{0,0,1},{1,0,0}},
    {{2/7.L,3/7.L,6/7.L},{3/7.L,-6/7.L,2/7.L}},
    {{0,0,-1},{0,1,0}},
    {{-1,0,0},{0,-0.6L,0.8L}},
    {{0.6L,-0.8L,0},{0.8L,0.6L,0}} };
  return A;
}

// the same masses as the library uses for the legs
inline void leg_masses(const feyn::Process& P, const feyn::Model& m, ld r[4]) { for (int i=0;i<4;i++) r[i] = P.l[i].mass(m); }
inline ld threshold(const ld m[4]) { return std::max(m[0]+m[1], m[2]+m[3]); }
inline ld energy(const ld m[4], int i, ld scale) {
  static const ld f[] = {1.3L, 1.005L, 2.2L, 12, 60, 3000, 1+1e-7L};
  ld t = threshold(m), base = std::max(t, scale);
  if (base == 0) base = 50;
  if ((i == 1 || i == 6) && t > 0) return t*f[i];
  return i == 6 ? base*0.01L : std::max(base*f[i], t*1.0001L);
}
static const int NENERGY = 7;
// energy in units of the lightest vector boson: its longitudinal states make diagrams cancel
inline ld longitudinal(const Info& I, const Par& p, ld W) { return I.uses(MW) && p[MW] > 0 ? W/p[MW] : 0; }

// smallest |q^2-M^2|/s over the exchanges: how far from a pole
inline ld pole_distance(const feyn::Process& P, const feyn::Model& m, const Kin& k) {
  ld s = 0, best = 1e9L, t[4];
  for (int j=0;j<4;j++) t[j] = k.q[0][j]+k.q[1][j];
  s = feyn::dot(t,t);
  for (auto& D : P.dia) {
    if (D.contact) continue;
    ld v[4];
    for (int j=0;j<4;j++) v[j] = (D.a<2 ? k.q[D.a][j] : -k.q[D.a][j]) + (D.b<2 ? k.q[D.b][j] : -k.q[D.b][j]);
    ld M = D.k1==feyn::VEC || D.k1==feyn::SCA ? m.mb(D.id1) : m.mf[D.id1];
    best = std::min(best, std::abs(feyn::dot(v,v)-M*M)/s);
  }
  return best;
}

template <class D> char channel(const D& d) {
  std::set<int> s = {d.a, d.b};
  return s.count(0) == s.count(1) ? 'S' : s.count(0) == s.count(2) ? 'T' : 'U';
}
// the diagrams an amplitude function is made of
inline feyn::Process part(const feyn::Process& P, const std::string& a) {
  feyn::Process Q = P; Q.dia.clear();
  for (auto& D : P.dia) {
    bool vec = !D.contact && D.k1 == feyn::VEC, g = vec && D.id1 == feyn::GL, w = vec && (D.id1 == feyn::WP || D.id1 == feyn::WM), keep = true;
    if (a.find("gluon") != std::string::npos) keep = g;
    else if (a.find("_W") != std::string::npos) keep = w;
    else if (a.find("rest") != std::string::npos) keep = !g && !w;
    if (a[a.size()-2] == '_' && strchr("STU", a.back())) {
      keep = keep && channel(D) == a.back();
    }
    if (keep) Q.dia.push_back(D);
  }
  return Q;
}
struct Ref { ld sum, big; };
inline Ref reference(const feyn::Process& P, const feyn::Model& m, const Kin& k, const int fix[4] = 0) {
  feyn::Wave w[4][3];
  std::vector<int> sp[4];
  for (int i=0;i<4;i++) {
    sp[i] = P.spins(i);
    if (fix && fix[i]) sp[i] = {fix[i]};
    for (size_t h=0;h<sp[i].size();h++) w[i][h] = feyn::external(P.l[i], m, k.q[i], P.l[i].fermion ? sp[i][h] : sp[i][h]/2);
  }
  Ref r = {0,0};
  for (size_t a=0;a<sp[0].size();a++) for (size_t b=0;b<sp[1].size();b++) for (size_t c=0;c<sp[2].size();c++) for (size_t d=0;d<sp[3].size();d++) {
    feyn::Wave x[4] = {w[0][a],w[1][b],w[2][c],w[3][d]};
    r.sum += P.hel2(m, x, r.big);
  }
  ld av = P.initial_average()*P.identical();
  if (fix) for (int i=0;i<2;i++) if (fix[i]) av /= P.l[i].nspin();
  r.sum /= av; r.big /= av;
  return r;
}

}
