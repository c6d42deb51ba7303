// C18: distinct objects never influence each other, even across threads.
#include "smk.h"
#include "c18_rt.h"
#include <array>
#include <sys/mman.h>
using namespace mc; using namespace sm;
using spinas::particle; using spinas::sproduct; using spinas::propagator; using spinas::cmatrix; using spinas::cvector;

struct Out {
  int n; ldouble v[16000];
  void put(ldouble x) { if (n < 16000) v[n++] = x; else abort(); }
  void put(const cdouble& z) { put(z.real()); put(z.imag()); }
  void put(const cmatrix& m) { for (int i=0;i<2;i++) for (int j=0;j<2;j++) put(m.get(i,j)); }
  void put(const cvector& w) { put(w.get(0)); put(w.get(1)); }
  void put(const std::string& s) { put((ldouble)s.size()); for (char c : s) put((ldouble)c); }
};

// The use of one object, in steps.
struct Prog { int n; Prog(int k) : n(k) {} virtual ~Prog() {} virtual void step(int i, Out& o) = 0; };

static const ldouble PM[4][5] = { {7,2,3,6,0}, {9,-1,4,8,0}, {5,0,0,3,4}, {7,-4,2,2,5} };   // E, p, m
static void ask(particle& p, Out& o) {
  o.put(p.mass()); for (int i=0;i<4;i++) o.put(p.get_momentum(i));
  o.put(p.umat()); o.put(p.lmat());
  if (p.mass() == 0) { o.put(p.rangle()); o.put(p.lsquare()); o.put(p.langle()); o.put(p.rsquare()); }
  else {
    for (int s : {-1,1}) for (bool u : {true,false}) { o.put(p.rangle(s,u)); o.put(p.langle(s,u)); o.put(p.lsquare(s,u)); o.put(p.rsquare(s,u)); }
    for (bool u : {true,false}) { o.put(p.rangle_matrix(u)); o.put(p.langle_matrix(u)); o.put(p.lsquare_matrix(u)); o.put(p.rsquare_matrix(u)); }
    for (auto f : {&particle::spin_j3_lu,&particle::spin_jp_lu,&particle::spin_jm_lu,&particle::spin_j3_ul,&particle::spin_jp_ul,&particle::spin_jm_ul}) o.put((p.*f)());
  }
  for (auto f : {&particle::lorentz_j3_lu,&particle::lorentz_jp_lu,&particle::lorentz_jm_lu,&particle::lorentz_j3_ul,&particle::lorentz_jp_ul,&particle::lorentz_jm_ul,
                 &particle::lorentz_j3_lu_dot,&particle::lorentz_jp_lu_dot,&particle::lorentz_jm_lu_dot,&particle::lorentz_j3_ul_dot,&particle::lorentz_jp_ul_dot,&particle::lorentz_jm_ul_dot}) o.put((p.*f)());
}
struct PParticle : Prog {
  int a, b; particle* p = 0;
  PParticle(int x, int y) : Prog(6), a(x), b(y) {}
  void step(int i, Out& o) override {
    switch (i) {
      case 0: p = new particle(PM[a][4]); break;
      case 1: p->set_momentum(PM[a]); break;
      case 2: ask(*p,o); break;
      case 3: p->set_mass(PM[b][4]); p->set_momentum(PM[b]); break;
      case 4: ask(*p,o); break;
      case 5: ask(*p,o); delete p; break;
    }
  }
};
struct PSproduct : Prog {
  int a, b; particle* p[4]; std::vector<sproduct> s;
  PSproduct(int x, int y) : Prog(6), a(x), b(y) {}
  void eval(Out& o) {
    for (auto& q : s) {
      bool l = p[a]->mass() != 0, r = p[b]->mass() != 0;
      if (!l && !r) o.put(q.v());
      else if (l != r) for (int i : {-1,1}) o.put(q.v(i));
      else for (int i : {-1,1}) for (int j : {-1,1}) o.put(q.v(i,j));
    }
  }
  void step(int i, Out& o) override {
    switch (i) {
      case 0: for (int k=0;k<4;k++) p[k] = new particle(PM[k],PM[k][4]); break;
      case 1: for (bool as : {true,false}) { s.push_back(sproduct(as,p[a],p[b])); s.push_back(sproduct(as,p[a],p[1],p[b])); s.push_back(sproduct(as,p[a],p[1],p[2],p[b])); s.push_back(sproduct(as,p[a],p[0],p[1],p[2],p[3],p[b])); } break;
      case 2: eval(o); break;
      case 3: for (int k=0;k<4;k++) { ldouble q[4] = {PM[k][0],PM[k][2],-PM[k][3],PM[k][1]}; p[k]->set_momentum(q); } for (auto& q : s) q.update(); break;
      case 4: eval(o); break;
      case 5: eval(o); s.clear(); for (int k=0;k<4;k++) delete p[k]; break;
    }
  }
};
struct PPropagator : Prog {
  ldouble m, w; propagator* p = 0;
  PPropagator(ldouble a, ldouble b) : Prog(6), m(a), w(b) {}
  void step(int i, Out& o) override {
    switch (i) {
      case 0: p = new propagator(m,w); break;
      case 1: o.put(p->denominator(PM[2])); o.put(p->denominator(PM[0])); break;
      case 2: p->set_mass(m+1); break;
      case 3: p->set_width(w*2); break;
      case 4: o.put(p->denominator(PM[1])); break;
      case 5: o.put(p->denominator(PM[3])); delete p; break;
    }
  }
};
struct PAlgebra : Prog {
  int k; cmatrix *a = 0, *b = 0; cvector* v = 0;
  PAlgebra(int x) : Prog(6), k(x) {}
  void step(int i, Out& o) override {
    switch (i) {
      case 0: a = new cmatrix(PM[k],true); b = new cmatrix(cdouble(k,1),cdouble(2,-k),cdouble(-3,k),cdouble(4,0.5L)); v = new cvector(cdouble(1,k),cdouble(-2,3)); break;
      case 1: { cmatrix c = (*a)*(*b); o.put(c); c += *a; c -= *b; c *= 3; o.put(c); o.put(a->get_det()); break; }
      case 2: { cvector c = (*v)*(*a); o.put(c); o.put((*b)*c); o.put(c*(*v)); o.put(outer(c,*v)); o.put(v->get_conjugate()); break; }
      case 3: *a *= *b; *b *= cdouble(0,1); *a /= 2; break;
      case 4: o.put(*a); o.put(*b); o.put((ldouble)(*a == *b)); o.put(-*a); o.put(ldouble(2)*(*a)); break;
      case 5: o.put(a->to_string()); o.put(v->to_Mathematica_string()); o.put(b->to_Mathematica_string()); delete a; delete b; delete v; break;
    }
  }
};
struct PHelpers : Prog {
  int k; spinas::process* p = 0;
  PHelpers(int x) : Prog(6), k(x) {}
  void step(int i, Out& o) override {
    int s[3] = {k%3*2-2, (k+1)%3*2-2, 0};
    switch (i) {
      case 0: p = new spinas::process(); break;
      case 1: o.put((ldouble)p->get_num_spin_loops(s[0],s[1],s[2])); o.put((ldouble)p->get_num_spin_loops(s,3)); o.put(p->get_spin_normalization(s[0],s[1],s[2])); o.put(p->get_spin_normalization(s,3)); break;
      case 2: case 4: for (int l=0;l<p->get_num_spin_loops(s[0],s[1],s[2]);l++) { int a,b,c,d,e,f; p->get_spinor_spins(s[0],a,b,s[1],c,d,s[2],e,f,l); for (int x : {a,b,c,d,e,f}) o.put((ldouble)x); } break;
      case 3: { ldouble q[4] = {PM[k][0],PM[k][1],PM[k][2],PM[k][3]}, u[3] = {0.6L,0,0.8L}, v[3] = {0.3L,-0.2L,0.1L*k}; spinas::rotate_momentum(q,u,0.7L+k); for (ldouble x : q) o.put(x); spinas::boost_momentum(q,v); for (ldouble x : q) o.put(x); break; }
      case 5: { ldouble a,b,c,d,e; p->set_test_initializations(1+k,2,3,1,50+k,a,b,c,d,e); for (ldouble x : {a,b,c,d,e}) o.put(x); ldouble q[4][4]; p->set_test_momenta(q[0],q[1],q[2],q[3],a,b,50+k,d,e,c,0.3L); for (auto& x : q) for (ldouble y : x) o.put(y); o.put(spinas::double_to_Mathematica_string(1.5e-7L*k)); delete p; break; }
    }
  }
};
struct PProcess : Prog {
  const Info& I; Par set[2]; Kin k[2]; Proc* x = 0;
  PProcess(const Info& i, int var) : Prog(6), I(i) {
    Par a = {}, b = {};
    for (int j=0;j<NPAR;j++) { auto v = alphabet(j,0); a[j] = v[0]; b[j] = v.size() > 1 ? v[1] : v[0]; }
    for (int j=ME;j<=MB;j++) a[j] = 3.5L + 0.7L*j;
    a[WW] = b[WW] = 2.0625L; a[WZ] = b[WZ] = 2.5L; a[WH] = b[WH] = 0.5L;
    if (var) { b[WW] = 4; b[WZ] = 3; b[WH] = 1; }
    int c = var ? 1 : 0; set[0] = c ? b : a; set[1] = I.has_masses ? c ? a : b : set[0];
    for (int j : {E,GS,SW,VEV,WW,WZ,WH}) set[1][j] = set[0][j];
    feyn::Process P; P.build(model(a,I), I.legs);
    for (int s=0;s<2;s++) { ldouble ms[4]; leg_masses(P, model(set[s],I), ms); k[s] = sm::kin(ms, energy(ms,s?0:2,60+10*var), s ? -0.7L : 0.3L, beams()[s?0:1+2*var][0], beams()[s?0:1+2*var][1]); }
  }
  void ask(Out& o) {
    std::array<std::array<int,4>,4> sp;                  // length, values
    for (auto& s : sp) s = {1,0,0,0};
    for (int i : I.labelled) { const std::string& l = I.legs[i]; sp[i] = l == "A" || l == "g" ? std::array<int,4>{2,-2,2,0} : l == "Z" || l[0] == 'W' ? std::array<int,4>{3,-2,0,2} : std::array<int,4>{2,-1,1,0}; }
    for (size_t q=0;q<I.amps.size();q++) for (int a=1;a<=sp[0][0];a++) for (int b=1;b<=sp[1][0];b++) for (int c=1;c<=sp[2][0];c++) for (int e=1;e<=sp[3][0];e++) {
      int d[4] = {sp[0][a],sp[1][b],sp[2][c],sp[3][e]};
      o.put(x->amp(q,d));
    }
    o.put(x->amp2());
    for (size_t q=0;q<I.pols.size();q++) o.put(x->pol(q));
  }
  void step(int i, Out& o) override {
    switch (i) {
      case 0: x = I.make(I,set[0]); break;
      case 1: x->set_momenta(k[0].q); break;
      case 2: ask(o); break;
      case 3: if (I.has_masses) x->set_masses(set[1]); x->set_momenta(k[1].q); break;
      case 4: o.put(x->amp2()); break;
      case 5: o.put(x->amp2()); if (I.has_mom) o.put(x->amp2_of(k[1].q)); delete x; break;
    }
  }
};

// programs by name: core kinds "particle.0" ..., classes "AAWW.0", "AAWW.1"
static const char* CORE[] = {"particle.0","particle.1","particle.2","particle.3","bracket.0","bracket.1","bracket.2","bracket.3","propagator.0","propagator.1","algebra.0","algebra.1","helpers.0","helpers.1"};
static const int NCORE = sizeof CORE/sizeof *CORE;
static Prog* make(const std::string& n) {
  auto f = split(n,'.'); int v = atoi(f[1].c_str());
  if (f[0] == "particle") return v == 0 ? new PParticle(0,2) : v == 1 ? new PParticle(3,2) : v == 2 ? new PParticle(1,0) : new PParticle(2,3);
  if (f[0] == "bracket") return v == 0 ? new PSproduct(0,1) : v == 1 ? new PSproduct(2,3) : v == 2 ? new PSproduct(0,3) : new PSproduct(2,0);
  if (f[0] == "propagator") return new PPropagator(80.5L-v,2+v);
  if (f[0] == "algebra") return new PAlgebra(v+1);
  if (f[0] == "helpers") return new PHelpers(v);
  const Info* I = find(f[0]); if (!I) return 0;
  return new PProcess(*I,v);
}

// ---- everything below runs the programs in child processes, so that each starts from a fresh image ----
struct Shared {
  Out out[2]; long points; size_t nconf; uint64_t conf[20000]; uint64_t accesses, handovers, bad; char why[2][200]; char msg[4000];
};
static Shared* sh() { static Shared* s = (Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); return s; }
// returns "" or how the child died
static std::string in_child(const std::function<void()>& f) {
  sh();
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    for (int s : {SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGALRM}) signal(s,SIG_DFL);
    alarm(300);
    f(); _exit(0);
  }
  int ws; while (waitpid(p,&ws,0) < 0) if (errno != EINTR) { perror("waitpid"); exit(3); }
  progress()++;
  if (WIFSIGNALED(ws)) return WTERMSIG(ws) == SIGALRM ? "did not return within 300 s" : std::string("died with signal ") + std::to_string(WTERMSIG(ws)) + " (" + strsignal(WTERMSIG(ws)) + ")";
  if (WEXITSTATUS(ws)) { fprintf(stderr,"child exit %d\n",WEXITSTATUS(ws)); exit(3); }
  return "";
}
static void protect(int who, const std::function<void()>& f) {
  try { f(); } catch (const std::exception& e) { snprintf(sh()->why[who],200,"%s",e.what()); } catch (...) { snprintf(sh()->why[who],200,"unknown exception"); }
}
static std::vector<ldouble> alone(const std::string& n, const std::string& key) {
  static std::map<std::string,std::vector<ldouble>> memo;
  auto it = memo.find(n); if (it != memo.end()) return it->second;
  memset(sh()->why,0,sizeof sh()->why);
  std::string how = in_child([&] { Shared* s = sh(); s->out[0].n = 0; Prog* p = make(n); protect(0,[&] { for (int i=0;i<p->n;i++) p->step(i,s->out[0]); }); });
  if (how.empty() && sh()->why[0][0]) how = std::string("threw ") + sh()->why[0];
  if (!how.empty()) { st().counters["programs_failing_alone"]++; return {}; }          // for the other properties to judge
  return memo[n] = std::vector<ldouble>(sh()->out[0].v, sh()->out[0].v+sh()->out[0].n);
}
static std::string differ(const std::vector<ldouble>& e, const Out& g) {
  if ((int)e.size() != g.n) return "gave " + std::to_string(g.n) + " values, " + std::to_string(e.size()) + " when used alone";
  for (size_t i=0;i<e.size();i++) {
    bool same = e[i] == g.v[i] || (e[i] != e[i] && g.v[i] != g.v[i]);
    if (!same && !(std::abs(e[i]-g.v[i]) <= 1e-12L*(std::abs(e[i])+1e-9L))) return "value number " + std::to_string(i) + " is " + fmt(g.v[i]) + ", when used alone it is " + fmt(e[i]);
  }
  return "";
}

// all interleavings of the steps of two programs, in one thread
static void sequential(const std::string& a, const std::string& b) {
  std::string key = "seq:" + a + ":" + b; at(key); st().traces++;
  auto ea = alone(a,key), eb = alone(b,key); if (ea.empty() || eb.empty()) return;
  sh()->bad = 0; sh()->accesses = sh()->handovers = 0; sh()->msg[0] = 0;
  std::string how = in_child([&] {
    Shared* s = sh();
    for (int m=0;m<1<<12;m++) {
      if (__builtin_popcount(m) != 6) continue;
      Prog *p = make(a), *q = make(b); int i = 0, j = 0;
      s->out[0].n = s->out[1].n = 0; memset(s->why,0,sizeof s->why);
      std::string order;
      for (int k=0;k<12;k++) {
        s->accesses++;
        if (m>>k & 1) { order += 'a'; protect(0,[&] { p->step(i++,s->out[0]); }); } else { order += 'b'; protect(1,[&] { q->step(j++,s->out[1]); }); }
        if (s->why[0][0] || s->why[1][0]) break;
      }
      s->handovers++;
      std::string w;
      if (s->why[0][0]) w = a + " threw " + s->why[0]; else if (s->why[1][0]) w = b + " threw " + s->why[1];
      else { w = differ(ea,s->out[0]); if (!w.empty()) w = a + ": " + w; else { w = differ(eb,s->out[1]); if (!w.empty()) w = b + ": " + w; } }
      delete p; delete q;
      if (!w.empty()) { s->bad = 1; snprintf(s->msg,4000,"steps in the order %s (a: %s, b: %s): %s",order.c_str(),a.c_str(),b.c_str(),w.c_str()); return; }
    }
  });
  if (!how.empty()) fail(key, a + " and " + b + " interleaved: " + how);
  else if (sh()->bad) fail(key, sh()->msg);
  st().states += sh()->handovers; st().transitions += sh()->accesses; st().counters["interleavings"] += sh()->handovers;
  for (auto x : ea) outcome(hnum(x));
}

// two threads
static double now() { struct timeval t; gettimeofday(&t,0); return t.tv_sec+1e-6*t.tv_usec; }
static const double T0 = now();
static std::string NA, NB;
static Prog* PG[2];
static void body(int t) { Out& o = sh()->out[t]; protect(t,[&] { for (int i=0;i<PG[t]->n;i++) PG[t]->step(i,o); }); }
static std::set<uint64_t> CONF;
struct Ran { bool ok; long points; };
static Ran schedule(const std::string& a, const std::string& b, int first, const std::vector<long>& sw, const std::vector<ldouble>& ea, const std::vector<ldouble>& eb, const std::string& key, bool& grew) {
  Shared* s = sh();
  s->out[0].n = s->out[1].n = 0; s->points = 0; s->nconf = 0; s->accesses = s->handovers = 0; memset(s->why,0,sizeof s->why);
  std::string how = in_child([&] {
    for (uint64_t c : CONF) rt::add_conflict(c);
    PG[0] = make(a); PG[1] = make(b);
    s->points = rt::run(body,first,sw.data(),sw.size());
    s->nconf = s->points < 0 ? 0 : rt::found(s->conf,20000); s->accesses = rt::accesses; s->handovers = rt::handovers;
  });
  st().traces++; st().states++; st().transitions += s->accesses; st().counters["thread_schedules"]++; st().counters["handovers"] += s->handovers;
  std::string w;
  if (!how.empty()) w = how;
  else if (s->points < 0) { st().counters["stuck_schedules"]++; return {true,0}; }
  else if (s->why[0][0]) w = a + " threw " + s->why[0]; else if (s->why[1][0]) w = b + " threw " + s->why[1];
  else { w = differ(ea,s->out[0]); if (!w.empty()) w = a + " in thread 0: " + w; else { w = differ(eb,s->out[1]); if (!w.empty()) w = b + " in thread 1: " + w; } }
  if (!w.empty()) {
    std::string at; for (long x : sw) at += (at.empty() ? "" : ",") + std::to_string(x);
    fail(key, "threads " + a + " and " + b + ", thread " + std::to_string(first) + " first, handover before the conflicting accesses number {" + at + "}: " + w);
    return {false,0};
  }
  grew = false;
  for (size_t i=0;i<s->nconf;i++) if (CONF.insert(s->conf[i]).second) grew = true;
  return {true,s->points};
}
static void threads(const std::string& a, const std::string& b) {
  std::string key = "thr:" + a + ":" + b; at(key);
  auto ea = alone(a,key), eb = alone(b,key); if (ea.empty() || eb.empty()) return;
  const long budget = opt().thorough ? 20000 : 400; const int P = opt().thorough ? 3 : 2;
  long used = 0; bool grew;
  CONF.clear();
  for (int first=0;first<2;first++) if (!schedule(a,b,first,{},ea,eb,key,grew).ok) return;
  st().counters["pairs_of_threads"]++;
  if (CONF.empty()) return;                              // every access of one thread commutes with every access of the other: one schedule stands for all
  st().counters["pairs_with_conflicts"]++; st().counters["conflicting_locations"] += CONF.size();
  bool cut = false;
  for (bool again = true; again && used < budget;) {      // until no new conflict turns up
    again = false;
    for (int first=0;first<2;first++) {
      auto r = schedule(a,b,first,{},ea,eb,key,grew); used++; if (!r.ok) return; again |= grew;
      // one preemption, then two, ...; a switch later than the last access met is no other schedule
      std::vector<std::vector<long>> level = {{}}; std::vector<long> pts = {r.points};
      for (int d=0;d<P;d++) {
        std::vector<std::vector<long>> cand, next; std::vector<long> np;
        for (size_t i=0;i<level.size();i++) for (long p = level[i].empty() ? 0 : level[i].back()+1; p<pts[i] && cand.size()<4000000; p++) { cand.push_back(level[i]); cand.back().push_back(p); }
        long left = first ? budget-used : budget/2-used; if (left < 1) left = 0;
        if (!opt().replaying && now() - T0 > 240 && !opt().thorough) left = 0;
        size_t stride = left ? (cand.size()+left-1)/left : cand.size()+1; if (stride > 1) cut = true;   // too many: evenly spread ones
        for (size_t i=0;i<cand.size() && left;i+=std::max<size_t>(stride,1)) {
          auto q = schedule(a,b,first,cand[i],ea,eb,key,grew); used++; if (!q.ok) return; again |= grew;
          next.push_back(cand[i]); np.push_back(q.points);
        }
        level.swap(next); pts.swap(np);
      }
    }
  }
  if (cut) st().counters["not_exhausted"]++;
}

// copies: all histories of two particle slots, built, copied, assigned, changed, asked and destroyed
static const char* COP[] = {"a = new particle 0","a = new particle 1","b = copy of a","a = copy of b","*a = *b","*b = *a","a->set_momentum","b->set_momentum","a->set_mass and momentum","ask a","ask b","delete a","delete b"};
static const int NCOP = 13;
static void copies(const std::vector<int>& h) {
  std::string key = "copy:" + join(h); at(key); st().states++; st().traces++;
  particle *a = 0, *b = 0; int sa = -1, sb = -1;         // rows of the table below
  static const ldouble T[6][5] = { {7,2,3,6,0}, {5,0,0,3,4}, {9,-1,4,8,0}, {7,-4,2,2,5}, {5,0,-3,0,4}, {7,6,-2,3,0} };
  static Out out, fresh[6];
  static bool once = [] { for (int i=0;i<6;i++) { particle p(T[i],T[i][4]); fresh[i].n = 0; ask(p,fresh[i]); } return true; }();
  auto check = [&](particle* p, int s, const char* w) {
    out.n = 0; ask(*p,out); st().transitions++;
    std::vector<ldouble> e(fresh[s].v,fresh[s].v+fresh[s].n);
    std::string d = differ(e,out);
    for (int i=0;i<out.n;i+=7) outcome(hnum(out.v[i]));
    if (d.empty()) return true;
    std::string t; for (int o : h) t += std::string(t.empty() ? "" : "; ") + COP[o];
    fail(key, t + ": particle " + w + ": " + d); return false;
  };
  bool ok = true;
  for (int o : h) {
    switch (o) {
      case 0: case 1: delete a; a = new particle(T[o],T[o][4]); sa = o; break;
      case 2: if (!a) break; { particle* c = new particle(*a); delete b; b = c; sb = sa; } break;
      case 3: if (!b) break; { particle* c = new particle(*b); delete a; a = c; sa = sb; } break;
      case 4: if (a && b) { *a = *b; sa = sb; } break;
      case 5: if (a && b) { *b = *a; sb = sa; } break;
      case 6: if (a) { int n = T[sa][4] == 0 ? (sa == 2 ? 5 : 2) : T[sa][4] == 4 ? (sa == 1 ? 4 : 1) : 3; a->set_momentum(T[n]); sa = n; } break;
      case 7: if (b) { int n = T[sb][4] == 0 ? (sb == 2 ? 0 : 2) : T[sb][4] == 4 ? (sb == 1 ? 4 : 1) : 3; b->set_momentum(T[n]); sb = n; } break;
      case 8: if (a) { int n = (sa+3)%6; a->set_mass(T[n][4]); a->set_momentum(T[n]); sa = n; } break;
      case 9: if (a && !(ok = check(a,sa,"a"))) goto end; break;
      case 10: if (b && !(ok = check(b,sb,"b"))) goto end; break;
      case 11: delete a; a = 0; break;
      case 12: delete b; b = 0; break;
    }
  }
  if (a && !check(a,sa,"a")) goto end;
  if (b) check(b,sb,"b");
  end: delete a; delete b;
}

static void run_case(const std::string& k) {
  auto f = split(k,':');
  if (f[0] == "copy") copies(ints(f[1])); else if (f[0] == "seq") sequential(f[1],f[2]); else threads(f[1],f[2]);
}
int main(int argc, char** argv) {
  return check_main(argc, argv,
    [] {
      std::vector<std::array<std::string,3>> todo;
      auto add = [&](const std::string& a, const std::string& b) { todo.push_back({"seq",a,b}); todo.push_back({"thr",a,b}); };
      for (int i=0;i<NCORE;i++) for (int j=i;j<NCORE;j++) add(CORE[i],CORE[j]);
      auto& R = registry(); size_t n = R.size();
      for (size_t i=0;i<n;i++) {
        add(R[i].name+".0",R[i].name+".1"); add(R[i].name+".0",R[(i+1)%n].name+".1");
        todo.push_back({"thr",R[i].name+".0",R[i].name+".0"}); todo.push_back({"thr",R[i].name+".1",CORE[i%NCORE]});
        if (opt().thorough) for (size_t j=i+2;j<n;j++) todo.push_back({"thr",R[i].name+".0",R[j].name+".1"});
      }
      shards(64, [&](int s) {
        for (size_t i=s;i<todo.size() && !enough();i+=64) { if (todo[i][0] == "seq") sequential(todo[i][1],todo[i][2]); else threads(todo[i][1],todo[i][2]); }
        int D = opt().thorough ? 6 : 5;
        for (int d=1;d<=D;d++) { long tot = 1; for (int i=0;i<d;i++) tot *= NCOP; for (long q=s;q<tot && !enough();q+=64) { std::vector<int> h; long r = q; for (int i=0;i<d;i++) { h.push_back(r%NCOP); r /= NCOP; } copies(h); } }
        if (s == 0) { sample("threads " + todo[1][1] + " | " + todo[1][2]); sample("all 924 interleavings of AAWW.0 and AAWW.1"); sample(COP[0] + std::string("; ") + COP[2] + "; " + COP[6] + "; " + COP[10]); }
      });
    },
    run_case,
    [] { return std::map<std::string,std::string>{{"sequences","6 steps each (build, set, ask, set again, ask, ask and destroy), all 924 interleavings: all pairs of 14 core programs, every process class with itself and with the next"},
      {"threads",std::string("two; the same pairs, each class with an equal copy and with a core program") + (opt().thorough ? ", all pairs of classes" : "") + "; preemptions at conflicting accesses up to " + (opt().thorough ? "3" : "2") + ", at most " + (opt().thorough ? "20000" : "400") + " schedules per pair with conflicts"},
      {"copies",std::string("all histories of length <= ") + (opt().thorough ? "6" : "5") + " over 13 operations on two particles"}}; });
}
