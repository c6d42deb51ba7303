// C14: squared amplitudes are the same in every frame.
#include "smk.h"
using namespace mc; using namespace sm;

typedef std::array<std::array<ldouble,3>,3> Rot;
// the 24 rotations that map the axes onto the axes, then some general ones
static const std::vector<Rot>& rotations() {
  static std::vector<Rot> r;
  if (!r.empty()) return r;
  int p[3] = {0,1,2};
  do for (int s=0;s<8;s++) {
    Rot m = {};
    for (int i=0;i<3;i++) m[i][p[i]] = (s>>i&1) ? -1 : 1;
    ldouble d = m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]);
    if (d > 0) r.push_back(m);
  } while (std::next_permutation(p,p+3));
  auto add = [&](ldouble a, ldouble b, ldouble c, ldouble d) {      // unit quaternion
    ldouble n = std::sqrt(a*a+b*b+c*c+d*d); a/=n; b/=n; c/=n; d/=n;
    r.push_back(Rot{{{a*a+b*b-c*c-d*d,2*(b*c-a*d),2*(b*d+a*c)},{2*(b*c+a*d),a*a-b*b+c*c-d*d,2*(c*d-a*b)},{2*(b*d-a*c),2*(c*d+a*b),a*a-b*b-c*c+d*d}}});
  };
  add(1,2,3,4); add(5,-1,2,-3); add(1,0,0,3); add(2,1,0,0); add(3,0,-1,0); add(1,-4,4,1); add(-2,3,5,1); add(7,1,-1,6);
  return r;
}
static Kin rotate(const Kin& k, const Rot& R) {
  Kin o;
  for (int n=0;n<4;n++) { o.q[n][0] = k.q[n][0]; for (int i=0;i<3;i++) o.q[n][i+1] = R[i][0]*k.q[n][1] + R[i][1]*k.q[n][2] + R[i][2]*k.q[n][3]; }
  return o;
}
// boost along the unit vector n with rapidity y, on shell again afterwards
static Kin boost(const Kin& k, const ldouble n[3], ldouble y, const ldouble m[4]) {
  Kin o; ldouble c = std::cosh(y), s = std::sinh(y);
  for (int i=0;i<4;i++) {
    ldouble l = n[0]*k.q[i][1] + n[1]*k.q[i][2] + n[2]*k.q[i][3], l2 = c*l + s*k.q[i][0], p2 = 0;
    for (int j=0;j<3;j++) { o.q[i][j+1] = k.q[i][j+1] + n[j]*(l2-l); p2 += o.q[i][j+1]*o.q[i][j+1]; }
    o.q[i][0] = std::sqrt(p2 + m[i]*m[i]);
  }
  return o;
}
// into the rest frame of particle i
static Kin at_rest(const Kin& k, int i, const ldouble m[4]) {
  ldouble p = std::sqrt(k.q[i][1]*k.q[i][1]+k.q[i][2]*k.q[i][2]+k.q[i][3]*k.q[i][3]);
  Kin o = k;
  if (p > 0) { ldouble n[3] = {-k.q[i][1]/p,-k.q[i][2]/p,-k.q[i][3]/p}; o = boost(k, n, std::asinh(p/m[i]), m); }
  o.q[i][0] = m[i]; o.q[i][1] = o.q[i][2] = o.q[i][3] = 0;
  return o;
}
static const ldouble DIR[][3] = {{0,0,1},{0,0,-1},{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{2/7.L,3/7.L,6/7.L},{-6/7.L,2/7.L,-3/7.L},{0.6L,-0.8L,0},{0,-0.6L,0.8L}};
static const ldouble RAP[] = {0.3L, 1.7L, 3.2L};
static const ldouble COS[] = {0.3L, 0, -0.8L, 1, -1};
static const int NCOS = 5;

struct Frames { std::vector<Kin> k; std::vector<std::string> name; };
static Frames frames(const Kin& z, const ldouble m[4], bool full) {       // z: beam along z, scattering in the x-z plane
  Frames f; int nr = rotations().size();
  auto add = [&](const Kin& k, const std::string& n) { f.k.push_back(k); f.name.push_back(n); };
  for (int r=0;r<nr;r++) add(rotate(z,rotations()[r]), "rotation " + std::to_string(r));
  for (int d=0;d<10;d++) for (int y=0;y<3;y++) {
    Kin b = boost(z,DIR[d],RAP[y],m);
    for (int r=0;r<nr;r++) if (full || r == 0 || r == 24+(d+y)%8 || r == (7*d+y)%24) add(rotate(b,rotations()[r]), "boost along direction " + std::to_string(d) + " with rapidity " + fmts(RAP[y]) + ", rotation " + std::to_string(r));
  }
  for (int i=0;i<4;i++) if (m[i] > 0.3L) {
    Kin b = at_rest(z,i,m);
    for (int r=0;r<nr;r++) add(rotate(b,rotations()[r]), "rest frame of particle " + std::to_string(i+1) + ", rotation " + std::to_string(r));
  }
  return f;
}

static Choices grid(const Info& I) {
  Choices c = choices(I, 0, true, false);
  if (!opt().thorough) for (size_t i=0;i<c.par.size();i++) { size_t n = is_mass(c.par[i]) ? 2 : 1; if (c.val[i].size() > n) c.val[i].resize(n); }
  return c;
}
static bool judge(const Info& I, long k, int ie, int ic, int only = -1) {
  Choices c = grid(I);
  Par p = point(c,k);
  for (int x : {WW,WZ,WH}) if (I.uses(x)) p[x] = 0.75L;
  feyn::Model m = model(p,I);
  feyn::Process P; P.build(m,I.legs);
  ldouble ms[4]; leg_masses(P,m,ms);
  ldouble W = energy(ms, ie, I.uses(MW) ? p[MW] : 20);
  Kin z = kin(ms, W, COS[ic], beams()[0][0], beams()[0][1]), base = rotate(z, rotations()[24]);
  ldouble dist = pole_distance(P,m,base);
  if (dist < 1e-5L) { st().counters["points on a pole left out"]++; return true; }
  dist = std::min(dist,(ldouble)1);
  std::string pre = I.name + ":" + std::to_string(k) + ":" + std::to_string(ie) + ":" + std::to_string(ic) + ":";
  at(pre + "0");
  st().states++;
  Ref r = reference(P,m,base);
  Proc* x = I.make(I,p);
  std::vector<ldouble> want;
  x->set_momenta(base.q); want.push_back(x->amp2()); for (size_t i=0;i<I.pols.size();i++) want.push_back(x->pol(i));
  Frames f = frames(z,ms,opt().thorough);
  bool ok = true;
  for (size_t n=0;n<f.k.size() && ok;n++) {
    if (only >= 0 && (int)n != only) continue;
    std::string key = pre + std::to_string(n); at(key);
    st().traces++; st().transitions++;
    ldouble E2 = 0; for (auto& v : f.k[n].q) E2 = std::max(E2, v[0]*v[0]);
    ldouble cond = E2/(W*W*dist); if (cond < 1) cond = 1;
    try {
      x->set_momenta(f.k[n].q);
      for (size_t i=0;i<want.size() && ok;i++) {
        ldouble got = i ? x->pol(i-1) : x->amp2();
        if (!i) outcome(hnum(got));
        ldouble tol = (1e-9L + 1e-13L*cond)*std::abs(want[i]) + 1e-13L*cond*r.big + 1e-24L;
        if (!(std::abs(got-want[i]) <= tol)) {
          fail(key, I.name + " " + show(I,p) + " at energy " + fmts(W) + ", cos(theta) " + fmts(COS[ic]) + ": " + (i ? I.pols[i-1].name : std::string("amp2")) + "() = " + fmt(got) + " in the frame reached by " + f.name[n] + ", " + fmt(want[i]) + " in the centre-of-mass frame");
          ok = false;
        }
      }
    } catch (const std::exception& e) { fail(key, I.name + " " + show(I,p) + " in the frame reached by " + f.name[n] + ": " + e.what()); ok = false; }
  }
  delete x;
  return ok;
}
static void run_case(const std::string& key) { auto f = split(key,':'); judge(*find(f[0]), atol(f[1].c_str()), atoi(f[2].c_str()), atoi(f[3].c_str()), atoi(f[4].c_str())); }

int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      int n = registry().size(), parts = 4;
      shards(n*parts, [&](int sh) {
        const Info& I = registry()[sh % n];
        long tot = count(grid(I));
        bool ok = true; int c = 0;
        for (long k=0;k<tot && ok;k++) for (int ie : {0,1,2,3,6}) for (int ic=0;ic<NCOS && ok;ic++) if (c++ % parts == sh / n) ok = judge(I,k,ie,ic);
      });
      { ldouble m[4] = {1,0,2,1}; Frames f = frames(kin(m,10,0.3L,beams()[0][0],beams()[0][1]),m,opt().thorough); for (size_t i=0;i<f.name.size();i+=f.name.size()/5) sample(f.name[i]); }
    },
    run_case,
    [] { return std::map<std::string,std::string>{{"processes", std::to_string(registry().size()) + " classes, every squared amplitude"}, {"frames", "24 rotations onto the axes and 8 general ones; boosts along 10 directions with 3 rapidities; the rest frame of every massive particle; each with rotations"}, {"kinematics", "5 energies x 5 angles including forward and backward"}}; });
}
