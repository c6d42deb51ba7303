// C21: relative phases of the helicity amplitudes.
// Up to one phase for each spin state of each particle they are the Feynman amplitudes, so every closed loop of
// spin flips, amp(h) amp(h') / (amp(h'') amp(h''')) where h'', h''' exchange some spins of h and h', has the Feynman phase.
#include "smk.h"
using namespace mc; using namespace sm;
typedef feyn::cd cd;

static const ld COS[] = {0.3L, -0.7L, 0.95L, -0.05L};
static int energies() { return 5; }
static int angles() { return 4; }

// colour components of the amplitude
static std::vector<cd> colours(const feyn::Process& P, const feyn::Model& m, const feyn::Wave w[4], ld& big) {
  std::vector<cd> A(P.col.size());
  for (auto& D : P.dia) { cd v = P.value(m,D,w); A[D.colour] += v; big = std::max(big, std::abs(v)); }
  return A;
}
static cd inner(const feyn::Process& P, const std::vector<cd>& a, const std::vector<cd>& b) {
  cd s = 0;
  for (size_t i=0;i<a.size();i++) for (size_t j=0;j<b.size();j++) s += cd(P.C[i][j].real(),P.C[i][j].imag())*a[i]*std::conj(b[j]);
  return s;
}

struct Point { const Info* I; Par p; feyn::Model m; feyn::Process P; std::vector<feyn::Process> parts; };

static bool judge(Point& c, Proc* x, const std::string& base, int ie, int ic, int ib) {
  const Info& I = *c.I;
  std::string key = base + ":" + join({ie,ic,ib});
  at(key);
  ld ms[4]; leg_masses(c.P,c.m,ms);
  ld W = energy(ms, ie, I.uses(MW) ? c.p[MW] : 20);
  Kin q = kin(ms, W, COS[ic], beams()[ib][0], beams()[ib][1]);
  ld dist = pole_distance(c.P,c.m,q);
  if (dist < 1e-4L) { st().counters["points on a pole left out"]++; return true; }
  auto where = [&] { return I.name + " (" + I.legs[0] + "," + I.legs[1] + " -> " + I.legs[2] + "," + I.legs[3] + ") " + show(I,c.p) + " at energy " + fmts(W) + ", cos(theta) " + fmts(COS[ic]) + ": "; };
  st().states++; st().traces++;
  std::vector<int> sp[4]; int n[4], N = 1, stride[4];
  feyn::Wave w[4][3];
  for (int i=3;i>=0;i--) {
    sp[i] = c.P.l[i].neutrino() ? std::vector<int>{c.P.l[i].anti ? 1 : -1} : c.P.spins(i);
    n[i] = sp[i].size(); stride[i] = N; N *= n[i];
    for (int h=0;h<n[i];h++) w[i][h] = feyn::external(c.P.l[i], c.m, q.q[i], c.P.l[i].fermion ? sp[i][h] : sp[i][h]/2);
  }
  auto spin = [&](int h, int i) { return h/stride[i]%n[i]; };
  try {
    x->set_momenta(q.q);
    for (size_t k=0;k<I.amps.size();k++) {
      const feyn::Process& Q = c.parts[k];
      std::vector<std::vector<cd>> A(N); std::vector<cd> lib(N), u(N); std::vector<bool> use(N);
      ld big = 0, rm = 0; int h0 = 0;
      for (int h=0;h<N;h++) {
        feyn::Wave v[4]; int lab[4];
        for (int i=0;i<4;i++) { int s = spin(h,i); v[i] = w[i][s]; lab[i] = i < 2 ? sp[i][s] : -sp[i][s]; }
        A[h] = colours(Q,c.m,v,big);
        lib[h] = x->amp(k,lab); st().transitions++;
        outcome(hnum(std::arg(lib[h])));
        ld r = std::sqrt(std::abs(inner(Q,A[h],A[h])));
        if (r > rm) rm = r, h0 = h;
      }
      // phase against the interference with the largest amplitude, where neither is zero or lost in cancellation
      for (int h=0;h<N;h++) {
        ld r = std::sqrt(std::abs(inner(Q,A[h],A[h])));
        use[h] = r > 1e-6L*rm && r > 1e-8L*big/dist && lib[h] != cd(0);
        if (use[h]) { u[h] = lib[h]*std::conj(inner(Q,A[h],A[h0])); u[h] /= std::abs(u[h]); }
      }
      for (int a=0;a<N;a++) if (use[a]) for (int b=a+1;b<N;b++) if (use[b]) {
        int d[4], nd = 0;
        for (int i=0;i<4;i++) if (spin(a,i) != spin(b,i)) d[nd++] = i;
        for (int mask=1; mask<(1<<nd)-1; mask+=2) {        // the first stays: each splitting once
          int e = a, f = b;
          for (int j=0;j<nd;j++) if (mask>>j&1) { int s = (spin(b,d[j])-spin(a,d[j]))*stride[d[j]]; e += s; f -= s; }
          if (!use[e] || !use[f]) continue;
          st().counters["loops of spin flips"]++;
          cd z = u[a]*u[b]*std::conj(u[e]*u[f]);
          if (!(std::abs(z-cd(1)) <= 1e-6L)) {
            auto name = [&](int h) { std::vector<int> l; for (int i : I.labelled) l.push_back(i < 2 ? sp[i][spin(h,i)] : -sp[i][spin(h,i)]); return I.amps[k] + "(" + join(l) + ")"; };
            fail(key, where() + "the phase of " + name(a) + "*" + name(b) + "/" + name(e) + "/" + name(f) + " differs from that of the Feynman diagrams by a factor " + fmts(z.real()) + (z.imag()<0 ? "" : "+") + fmts(z.imag()) + "i");
            return false;
          }
        }
      }
    }
  } catch (const std::exception& e) { fail(key, where() + e.what()); return false; }
  return true;
}

static bool params(const Info& I, int mode, long k, int only_e = -1, int only_c = -1, int only_b = -1) {
  Choices ch = choices(I, opt().thorough ? 1 : 0, mode == 0, mode == 1);
  Point c; c.I = &I; c.p = point(ch,k); c.m = model(c.p,I); c.P.build(c.m,I.legs);
  for (auto& a : I.amps) c.parts.push_back(part(c.P,a));
  Proc* x = I.make(I,c.p);
  bool ok = true;
  for (int ie=0; ie<energies() && ok; ie++) for (int ic=0; ic<angles() && ok; ic++) for (int ib=0; ib<2 && ok; ib++) {
    if (only_e >= 0 && (ie != only_e || ic != only_c || ib != only_b)) continue;
    ok = judge(c, x, I.name + ":" + std::to_string(mode) + ":" + std::to_string(k), ie, ic, ib);
  }
  delete x;
  return ok;
}
static void run_case(const std::string& key) {
  auto f = split(key,':'); auto v = ints(f[3]);
  params(*find(f[0]), atoi(f[1].c_str()), atol(f[2].c_str()), v[0], v[1], v[2]);
}

int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      int n = registry().size(), parts = 8;
      shards(n*parts, [&](int sh) {
        const Info& I = registry()[sh % n];
        bool ok = true;
        for (int mode=0; mode<2 && ok; mode++) {
          long tot = count(choices(I, opt().thorough ? 1 : 0, mode==0, mode==1));
          for (long k=sh/n; k<tot && ok; k+=parts) ok = params(I,mode,k);
        }
        if (sh < 6) { std::string s = I.name; for (auto& a : I.amps) s += " " + a; sample(s); }
      });
    },
    run_case,
    [] { return std::map<std::string,std::string>{{"processes", std::to_string(registry().size()) + " classes, every amplitude function"}, {"spins", "every pair of spin configurations and every way of exchanging part of their spins"}, {"parameters", "full product of the masses and sW, and full product of couplings and sW"}, {"kinematics", std::to_string(energies()) + " energies x " + std::to_string(angles()) + " angles x 2 beam directions"}}; });
}
