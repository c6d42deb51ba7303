// C07: the spin-1 helpers enumerate every spinor-spin assignment exactly once.
#include "mc.h"
#include "spinas.h"
using namespace mc; using namespace spinas;

// the fixed-arity forms
static int loopsF(process& P, const std::vector<int>& d) {
  switch (d.size()) {
    case 1: return P.get_num_spin_loops(d[0]);
    case 2: return P.get_num_spin_loops(d[0], d[1]);
    case 3: return P.get_num_spin_loops(d[0], d[1], d[2]);
    case 4: return P.get_num_spin_loops(d[0], d[1], d[2], d[3]);
    case 5: return P.get_num_spin_loops(d[0], d[1], d[2], d[3], d[4]);
    default: return P.get_num_spin_loops(d[0], d[1], d[2], d[3], d[4], d[5]);
  }
}
static ldouble normF(process& P, const std::vector<int>& d) {
  switch (d.size()) {
    case 1: return P.get_spin_normalization(d[0]);
    case 2: return P.get_spin_normalization(d[0], d[1]);
    case 3: return P.get_spin_normalization(d[0], d[1], d[2]);
    case 4: return P.get_spin_normalization(d[0], d[1], d[2], d[3]);
    case 5: return P.get_spin_normalization(d[0], d[1], d[2], d[3], d[4]);
    default: return P.get_spin_normalization(d[0], d[1], d[2], d[3], d[4], d[5]);
  }
}
static void spinsF(process& P, const std::vector<int>& d, std::vector<int>& a, std::vector<int>& b, int it) {
  switch (d.size()) {
    case 1: P.get_spinor_spins(d[0], a[0], b[0], it); break;
    case 2: P.get_spinor_spins(d[0], a[0], b[0], d[1], a[1], b[1], it); break;
    case 3: P.get_spinor_spins(d[0], a[0], b[0], d[1], a[1], b[1], d[2], a[2], b[2], it); break;
    case 4: P.get_spinor_spins(d[0], a[0], b[0], d[1], a[1], b[1], d[2], a[2], b[2], d[3], a[3], b[3], it); break;
    case 5: P.get_spinor_spins(d[0], a[0], b[0], d[1], a[1], b[1], d[2], a[2], b[2], d[3], a[3], b[3], d[4], a[4], b[4], it); break;
    default: P.get_spinor_spins(d[0], a[0], b[0], d[1], a[1], b[1], d[2], a[2], b[2], d[3], a[3], b[3], d[4], a[4], b[4], d[5], a[5], b[5], it);
  }
}
static void spinsL(process& P, const std::vector<int>& d, std::vector<int>& a, std::vector<int>& b, int it) {
  std::vector<const int*> pd; std::vector<int*> pa, pb;
  for (size_t i = 0; i < d.size(); i++) { pd.push_back(&d[i]); pa.push_back(&a[i]); pb.push_back(&b[i]); }
  P.get_spinor_spins(pd.data(), pa.data(), pb.data(), (int)d.size(), it);
}

// one case: all iterations of one spin tuple in one form. order 0: ascending, 1: descending, 2: each twice
static void run(process& P, const std::vector<int>& d, bool list, int order) {
  std::string key = std::string(list ? "list" : "fixed") + ":" + std::to_string(order) + ":" + join(d);
  at(key);
  int zeros = 0; for (int x : d) zeros += x == 0;
  uint64_t expect = 1ull << zeros;
  int n = list ? P.get_num_spin_loops(d.data(), (int)d.size()) : loopsF(P, d);
  st().transitions++;
  if (n < 0 || (uint64_t)n != expect) { fail(key, "number of terms " + std::to_string(n) + ", expected " + std::to_string(expect)); return; }
  ldouble w = list ? P.get_spin_normalization(d.data(), (int)d.size()) : normF(P, d);
  st().transitions++;
  ldouble wref = 1 / std::sqrt((ldouble)expect);
  if (!(std::abs(w - wref) <= 1e-17L*EPSF * wref)) { fail(key, "normalization " + fmt(w) + ", expected " + fmt(wref)); return; }
  std::vector<uint64_t> seen; std::vector<uint64_t> inorder((size_t)n);
  auto one = [&](int it) -> bool {
    std::vector<int> a(d.size(), 77), b(d.size(), 77), d0 = d;
    if (list) spinsL(P, d, a, b, it); else spinsF(P, d, a, b, it);
    st().transitions++;
    uint64_t code = 0;
    for (size_t i = 0; i < d.size(); i++) {
      bool ok = (a[i] == 1 || a[i] == -1) && (b[i] == 1 || b[i] == -1) && a[i] + b[i] == d[i];
      if (!ok || d0[i] != d[i]) { fail(key, "iteration " + std::to_string(it) + " particle " + std::to_string(i) + " spin " + std::to_string(d0[i]) + " gives halves " + std::to_string(a[i]) + "," + std::to_string(b[i])); return false; }
      code = code * 2 + (a[i] > 0);
    }
    inorder[it] = code; return true;
  };
  for (int k = 0; k < n; k++) {
    int it = order == 1 ? n - 1 - k : k;
    if (!one(it)) return;
    if (order == 2) { uint64_t c = inorder[it]; if (!one(it)) return; if (c != inorder[it]) { fail(key, "iteration " + std::to_string(it) + " differs when repeated"); return; } }
  }
  std::set<uint64_t> u(inorder.begin(), inorder.end());
  if (u.size() != inorder.size()) { fail(key, "only " + std::to_string(u.size()) + " distinct assignments in " + std::to_string(n) + " iterations"); return; }
  uint64_t h = hstr(join(d)); for (auto c : inorder) h = mix(h, c); outcome(h);
  st().states++; st().traces++;
  if (st().states % 997 == 1) sample(key + " -> " + std::to_string(n) + " terms, normalization " + fmts(w));
}

static int maxN() { return opt().thorough ? 11 : 8; }
static std::vector<int> tuple(uint64_t code, int n) { std::vector<int> d(n); for (int i = 0; i < n; i++) { d[i] = (int)(code % 3) * 2 - 2; code /= 3; } return d; }

int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      shards(8, [](int sh) {
        process P;   // one object reused for all: the helpers must be stateless
        for (int n = 1; n <= maxN(); n++) {
          uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= 3;
          for (uint64_t c = sh; c < tot; c += 8) {
            auto d = tuple(c, n);
            for (int o = 0; o < 3; o++) { if (n <= 6) run(P, d, false, o); run(P, d, true, o); }
            if (enough()) return;
          }
        }
      });
    },
    [](const std::string& k) { process P; auto f = split(k, ':'); run(P, ints(f[2]), f[0] == "list", atoi(f[1].c_str())); },
    [] { return std::map<std::string, std::string>{{"spins", "{-2,0,2}"}, {"particles, fixed forms", "1..6"}, {"particles, list form", "1.." + std::to_string(maxN())}, {"iteration orders", "ascending, descending, repeated"}}; });
}
