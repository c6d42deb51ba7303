// C27: no process loses memory, and an allocation that fails at any point leaves it usable.
// The harness owns operator new: it counts what is live and can refuse the k-th request.
#include "smk.h"
#include <new>
#include <array>
static long live = 0, asked = 0, refuse = -1; static bool armed = false, on_and_on = false;
static void* get(size_t n) {
  if (armed) { long k = asked++; if (refuse >= 0 && (on_and_on ? k >= refuse : k == refuse)) return 0; }
  void* p = std::malloc(n ? n : 1); if (p) ++live; return p;
}
static void put(void* p) { if (p) { --live; std::free(p); } }
void* operator new(size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
using namespace mc; using namespace sm;

struct World {
  const Info* I; Par p[2]; Kin k[2], bad[4]; ldouble scale = 0;
  std::vector<std::array<int,4>> spins;
  std::vector<cdouble> want;                 // the amplitudes and squared amplitudes at k[0]
};
// operations: construction, then those of a process; number n of amplitudes x spins come last
enum { MAKE, MASSES, VEVS, MOM, BAD1, BAD2, BAD3, BAD4, AMP2, AMP2OF, FIRST };
static int nops(const World& w) { return FIRST + w.I->pols.size() + w.I->amps.size()*w.spins.size(); }
static std::string opname(const World& w, int o) {
  static const char* n[] = {"construction", "set_masses", "set_v", "set_momenta", "set_momenta with the first wrong", "set_momenta with the second wrong", "set_momenta with the third wrong", "set_momenta with the fourth wrong", "amp2", "amp2(momenta)"};
  if (o < FIRST) return n[o];
  o -= FIRST; if (o < (int)w.I->pols.size()) return w.I->pols[o].name;
  o -= w.I->pols.size(); auto& s = w.spins[o % w.spins.size()];
  return w.I->amps[o / w.spins.size()] + "(" + join({s[0],s[1],s[2],s[3]}) + ")";
}
static bool has(const World& w, int o) { return o == MASSES ? w.I->has_masses : o == VEVS ? w.I->has_v : o == AMP2OF ? w.I->has_mom : true; }
static cdouble act(const World& w, Proc*& x, int o) {
  switch (o) {
    case MAKE: x = w.I->make(*w.I, w.p[0]); return 0;
    case MASSES: x->set_masses(w.p[1]); return 0;
    case VEVS: x->set_v(w.p[0]); return 0;
    case MOM: x->set_momenta(w.k[0].q); return 0;
    case BAD1: case BAD2: case BAD3: case BAD4: x->set_momenta(w.bad[o-BAD1].q); return 0;
    case AMP2: return x->amp2();
    case AMP2OF: return x->amp2_of(w.k[0].q);
  }
  o -= FIRST; if (o < (int)w.I->pols.size()) return x->pol(o);
  o -= w.I->pols.size(); return x->amp(o / w.spins.size(), w.spins[o % w.spins.size()].data());
}
static World world(const Info& I) {
  World w; w.I = &I;
  Choices c = choices(I, 0, true, false);
  w.p[0] = point(c,0); w.p[1] = point(c,count(c)-1); for (int s=0;s<2;s++) for (int i : {WW,WZ,WH}) w.p[s][i] = 0.75L;
  for (int s=0;s<2;s++) { feyn::Model m = model(w.p[0],I); feyn::Process P; P.build(m,I.legs); ldouble ms[4]; leg_masses(P,m,ms); w.k[s] = kin(ms, energy(ms,s ? 0 : 2,60), s ? -0.7L : 0.3L, beams()[s][0], beams()[s][1]); }
  for (int l=0;l<4;l++) { w.bad[l] = w.k[0]; w.bad[l].q[l][0] *= 1.25L; }
  std::vector<int> sp[4];
  for (int i=0;i<4;i++) {
    const std::string& l = I.legs[i]; sp[i] = {0};
    if (std::find(I.labelled.begin(), I.labelled.end(), i) != I.labelled.end()) sp[i] = l == "A" || l == "g" ? std::vector<int>{-2,2} : l == "Z" || l[0] == 'W' ? std::vector<int>{-2,0,2} : std::vector<int>{-1,1};
  }
  for (int a : sp[0]) for (int b : sp[1]) for (int d : sp[2]) for (int e : sp[3]) w.spins.push_back({{a,b,d,e}});
  Proc* x = 0; act(w,x,MAKE); act(w,x,MOM);
  for (int o=AMP2;o<nops(w);o++) w.want.push_back(has(w,o) ? act(w,x,o) : cdouble(0));
  delete x;
  for (auto v : w.want) w.scale = std::max(w.scale, std::abs(v));
  return w;
}
static bool near(const World& w, int o, cdouble v) { return std::abs(v - w.want[o-AMP2]) <= 1e-14L*w.scale; }
// build, use in every way, destroy: from the second time on nothing stays behind
static void cycles(const World& w) {
  std::string key = w.I->name + ":cycle"; at(key); st().states++; st().traces++;
  for (int n=0;n<4;n++) {
    long before = live; bool threw = false;
    {
      Proc* x = 0; Par q = w.p[0];
      act(w,x,MAKE);
      for (int t=0;t<3;t++) {
        x->set_momenta(n == 3 ? w.k[1].q : w.k[0].q);
        for (int o=AMP2;o<nops(w);o++) if (has(w,o)) { act(w,x,o); st().transitions++; if (o == AMP2OF) x->set_momenta(n == 3 ? w.k[1].q : w.k[0].q); }
        for (int o=BAD1;o<=BAD4;o++) try { act(w,x,o); } catch (const std::exception&) { threw = true; }
        if (has(w,MASSES)) { act(w,x,MASSES); x->set_masses(q); }
        if (has(w,VEVS)) act(w,x,VEVS);
      }
      delete x;
    }
    if (n && live != before) { fail(key, w.I->name + ": building, using and destroying a process once more leaves " + std::to_string(live-before) + " allocations behind"); return; }
    outcome(threw);
  }
}
// request number k of operation o is refused (once, or it and all later ones)
static bool refused(const World& w, int o, long k, bool on, bool& reached) {
  std::string key = w.I->name + ":" + std::to_string(o) + ":" + std::to_string(k) + ":" + std::to_string(on); at(key); st().states++; st().traces++; st().transitions++;
  std::string what = w.I->name + ": request " + std::to_string(k) + " for memory in " + opname(w,o) + (on ? " and all later ones are refused" : " is refused");
  bool ok = true, threw = false; cdouble v = 0; Proc* x = 0; std::string err;
  try {
    if (o != MAKE) { act(w,x,MAKE); act(w,x,MOM); }
    asked = 0; refuse = k; on_and_on = on; armed = true;
    try { v = act(w,x,o); } catch (const std::exception&) { threw = true; } catch (...) { armed = false; throw; }
    armed = false; refuse = -1; reached = asked > k;
    if (o >= AMP2 && !threw && !near(w,o,v)) { err = "; the answer is " + fmt(v) + " instead of " + fmt(w.want[o-AMP2]); ok = false; }
    if (ok && o == MAKE && threw) { x = 0; act(w,x,MAKE); }
    if (ok && o == MASSES) x->set_masses(w.p[0]);
    // an evaluation that failed changes nothing; otherwise momenta are set again
    if (ok) {
      if (o < AMP2 || o == AMP2OF) act(w,x,MOM);
      for (int t=0;t<2 && ok;t++) for (int q=AMP2;q<nops(w) && ok;q++) { if (q == AMP2OF || !has(w,q)) continue; cdouble r = act(w,x,q); if (!near(w,q,r)) { err = "; afterwards " + opname(w,q) + " is " + fmt(r) + " instead of " + fmt(w.want[q-AMP2]); ok = false; } st().transitions++; }
    }
    delete x; x = 0;
  } catch (const std::exception& e) { armed = false; refuse = -1; err = std::string("; afterwards: ") + e.what(); ok = false; }
  armed = false; refuse = -1;
  outcome(threw + 2*ok);
  if (!ok) fail(key, what + err);
  return ok;
}
// the same, counting what is left behind
static bool leaks(const World& w, int o, long k, bool on) {
  std::string key = w.I->name + ":L" + std::to_string(o) + ":" + std::to_string(k) + ":" + std::to_string(on); at(key); st().traces++;
  long before = live; Proc* x = 0;
  { if (o != MAKE) { act(w,x,MAKE); act(w,x,MOM); }
    asked = 0; refuse = k; on_and_on = on; armed = true;
    try { act(w,x,o); } catch (const std::exception&) { }
    armed = false; refuse = -1; delete x; }
  long left = live - before;
  if (left) { fail(key, w.I->name + ": after request " + std::to_string(k) + " for memory in " + opname(w,o) + " was refused, " + std::to_string(left) + " allocations stay behind when the process is destroyed"); return false; }
  return true;
}
static void run_case(const std::string& key) {
  auto f = split(key,':'); World w = world(*find(f[0])); bool r;
  if (f[1] == "cycle") cycles(w);
  else if (f[1][0] == 'L') { leaks(w, atoi(f[1].c_str()+1), -1, false); leaks(w, atoi(f[1].c_str()+1), atol(f[2].c_str()), f[3] == "1"); }
  else refused(w, atoi(f[1].c_str()), atol(f[2].c_str()), f[3] == "1", r);
}
int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      int n = registry().size();
      shards(n, [&](int sh) {
        World w = world(registry()[sh]); cycles(w); long points = 0;
        for (int o=0;o<nops(w) && !enough();o++) {
          if (!has(w,o)) continue;
          leaks(w,o,-1,false);     // first use of anything kept for good
          bool more = true;
          for (long k=0;more && !enough();k++) {
            bool ok = true;
            for (int on=0;on<2 && ok;on++) ok = refused(w,o,k,on,more) && leaks(w,o,k,on);
            if (more) points++;
            if (!ok) break;
          }
        }
        st().counters["points of failure"] += points;
        if (sh < 3) sample(registry()[sh].name + ", request 3 for memory in amp2 refused");
      });
    },
    run_case,
    [] { return std::map<std::string,std::string>{{"processes", std::to_string(registry().size()) + " classes"}, {"operations", "construction, set_masses, set_v, set_momenta with right and wrong momenta, amp2, amp2(momenta), polarized forms, every amplitude"}, {"faults", "every request for memory, refused once or for good"}, {"cycles", "4 of building, using three times and destroying"}}; });
}
