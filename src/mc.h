// Small explicit-state / exhaustive-enumeration support used by every check.
//
// A check enumerates cases. Each case has a textual key from which it can be
// run again alone (--case KEY). Counters are measured, never constants.
#pragma once
#include <cerrno>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// rounding of the configuration the library is built in, relative to long double
#ifdef WITH_LONG_DOUBLE
#define EPSF 1.0L
#else
#define EPSF 2048.0L
#endif

// shorter histories, for slow configurations
#ifdef MC_LIGHT
static const bool LIGHT = true;
#else
static const bool LIGHT = false;
#endif

namespace mc {

struct Violation { std::string key, msg; };

struct Stats {
  uint64_t states = 0, transitions = 0, traces = 0, evaluations = 0;
  std::unordered_set<uint64_t> outcomes;
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  std::map<std::string, uint64_t> counters;
  std::set<std::string> known;       // known-finding ids met on this run
  void merge_from(const std::string& file);
  void save(const std::string& file) const;
};

inline Stats& st() { static Stats s; return s; }

struct Opts {
  bool thorough = false;
  std::string replay;     // run only this case
  bool replaying = false;
  std::string prop;
  int jobs = 8;
  std::set<std::string> known_ids; // ids listed in the committed known-findings file
};
inline Opts& opt() { static Opts o; return o; }

constexpr size_t MAX_VIOL = 8;

// What a shard process leaves behind if it dies: in memory shared with the parent, written without allocating.
struct Last { int shard; char key[32768], msg[1024], fkey[32768], fmsg[4096]; };
inline Last*& last() { static Last* l = (Last*)calloc(1, sizeof(Last)); return l; }
inline char* curbuf() { return last()->key; }
inline void put(char* b, size_t n, const char* s) { strncpy(b, s, n - 1); b[n - 1] = 0; }
inline volatile uint64_t& progress() { static volatile uint64_t p = 0; return p; }

// Name the case being run: used when the code under test crashes or hangs.
inline void at(const std::string& key) {
  size_t n = std::min(key.size(), (size_t)32767);
  memcpy(curbuf(), key.data(), n); curbuf()[n] = 0;
  ++progress();
}

inline void fail(const std::string& key, const std::string& msg) {
  if (st().violations.empty()) { put(last()->fkey, sizeof last()->fkey, key.c_str()); put(last()->fmsg, sizeof last()->fmsg, msg.c_str()); }
  if (st().violations.size() < MAX_VIOL) st().violations.push_back({key, msg});
  st().counters["violating_cases"]++;
}
inline bool enough() { return st().violations.size() >= MAX_VIOL; }

// A failure that the committed known-findings file lists under this id.
inline bool known(const std::string& id) {
  if (!opt().known_ids.count(id)) return false;
  st().known.insert(id); return true;
}

inline void sample(const std::string& s) { if (st().samples.size() < 6) st().samples.push_back(s); }

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull;
}
// hash of a number to ~12 digits, so that rounding does not make outcomes distinct
inline uint64_t hnum(long double x) {
  if (x != x) return 0x7ff8;
  if (std::isinf(x)) return x > 0 ? 0x7ff0 : 0xfff0;
  if (x == 0) return 0;
  int e; long double f = std::frexp(x, &e);
  return mix((uint64_t)(int64_t)e, (uint64_t)(int64_t)std::llround(f * 1e12L));
}
inline uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull; return h; }
inline void outcome(uint64_t h) { if (st().outcomes.size() < 20000000) st().outcomes.insert(h); }

inline std::string fmt(long double x) { char b[64]; snprintf(b, 64, "%.21Lg", x); return b; }
inline std::string fmts(long double x) { char b[64]; snprintf(b, 64, "%.10Lg", x); return b; }
inline std::string fmt(const std::complex<long double>& z) { return "(" + fmt(z.real()) + "," + fmt(z.imag()) + ")"; }
inline std::string fmt(const std::complex<double>& z) { return fmt(std::complex<long double>(z)); }

inline std::string esc(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

inline void Stats::save(const std::string& f) const {
  FILE* o = fopen(f.c_str(), "wb");
  auto str = [&](const std::string& s) { uint64_t n = s.size(); fwrite(&n, 8, 1, o); fwrite(s.data(), 1, n, o); };
  auto num = [&](uint64_t v) { fwrite(&v, 8, 1, o); };
  num(states); num(transitions); num(traces); num(evaluations);
  num(outcomes.size()); for (auto v : outcomes) num(v);
  num(samples.size()); for (auto& s : samples) str(s);
  num(violations.size()); for (auto& v : violations) { str(v.key); str(v.msg); }
  num(counters.size()); for (auto& c : counters) { str(c.first); num(c.second); }
  num(known.size()); for (auto& k : known) str(k);
  fclose(o);
}
inline void Stats::merge_from(const std::string& f) {
  FILE* o = fopen(f.c_str(), "rb");
  if (!o) { fprintf(stderr, "missing shard result %s\n", f.c_str()); exit(3); }
  bool bad = false;
  auto num = [&]() { uint64_t v = 0; if (fread(&v, 8, 1, o) != 1) bad = true; return v; };
  auto str = [&]() { uint64_t n = num(); std::string s(bad ? 0 : n, 0); if (!bad && n && fread(&s[0], 1, n, o) != n) bad = true; return s; };
  states += num(); transitions += num(); traces += num(); evaluations += num();
  for (uint64_t n = num(); n-- && !bad;) outcomes.insert(num());
  for (uint64_t n = num(); n-- && !bad;) { auto s = str(); if (samples.size() < 6) samples.push_back(s); }
  for (uint64_t n = num(); n-- && !bad;) { auto k = str(); auto m = str(); if (violations.size() < MAX_VIOL) violations.push_back({k, m}); }
  for (uint64_t n = num(); n-- && !bad;) { auto k = str(); counters[k] += num(); }
  for (uint64_t n = num(); n-- && !bad;) known.insert(str());
  fclose(o);
  if (bad) { fprintf(stderr, "truncated shard result %s\n", f.c_str()); exit(3); }
}

// the code under test crashed or hung inside the named case: the parent records it as the outcome of that case
inline void crash(int sig) {
  put(last()->msg, sizeof last()->msg, "the code under test died with signal "); strncat(last()->msg, sigabbrev_np(sig) ? sigabbrev_np(sig) : "?", 20);
  _exit(97);
}
inline void tick(int) {
  static uint64_t seen = 0; static int idle = 0;
  if (progress() == seen) { if (++idle >= 12) { put(last()->msg, sizeof last()->msg, "the code under test did not return within 60 s"); _exit(97); } }
  else { idle = 0; seen = progress(); }
}
inline void guard() {
  static char stack[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK | SA_RESETHAND; sigaction(s, &sa, nullptr);
  }
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = tick; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
  struct itimerval it; it.it_interval = {5, 0}; it.it_value = {5, 0}; setitimer(ITIMER_REAL, &it, nullptr);
}

inline std::string tmpdir() { static std::string d = [] { char t[] = "/tmp/mcXXXXXX"; return std::string(mkdtemp(t)); }(); return d; }

// Run body(shard) for shard in [0,n), in up to opt().jobs child processes; results are merged.
inline void shards(int n, const std::function<void(int)>& body) {
  std::string dir = tmpdir();
  std::map<int, std::string> files;
  int next = 0;
  static int batch = 0; ++batch;
  std::map<pid_t, std::pair<std::string, Last*>> who;
  while (next < n || !who.empty()) {
    if (next < n && (int)who.size() < opt().jobs) {
      std::string f = dir + "/s" + std::to_string(batch) + "_" + std::to_string(next);
      fflush(stdout); fflush(stderr);
      Last* mem = (Last*)mmap(nullptr, sizeof(Last), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      if (mem == MAP_FAILED) { perror("mmap"); exit(3); }
      mem->shard = next;
      pid_t p = fork();
      if (p < 0) { perror("fork"); exit(3); }
      if (p == 0) {
        st() = Stats(); last() = mem; guard();
        try { body(next); }
        catch (const std::exception& e) { fail(curbuf(), std::string("unexpected exception: ") + e.what()); }
        catch (...) { fail(curbuf(), "unexpected exception of unknown type"); }
        st().save(f); _exit(0);
      }
      who[p] = {f, mem}; ++next;
    } else {
      int ws; pid_t p = wait(&ws);
      if (p < 0) { perror("wait"); exit(3); }
      if (!who.count(p)) continue;
      auto w = who[p]; who.erase(p);
      Last* l = w.second;
      if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) files[l->shard] = w.first;
      else if (WIFSIGNALED(ws) ? WTERMSIG(ws) == SIGKILL : WEXITSTATUS(ws) != 97 && !l->key[0]) { fprintf(stderr, "shard process failed, status %d\n", ws); exit(3); }
      else {                                          // a death of the code under test
        unlink(w.first.c_str());
        if (l->fkey[0]) fail(l->fkey, l->fmsg);
        fail(l->key, l->msg[0] ? l->msg : "the code under test ended the process, status " + std::to_string(ws));
      }
      munmap(l, sizeof(Last));
    }
  }
  for (auto& f : files) { st().merge_from(f.second); unlink(f.second.c_str()); }
}

using Enumerate = std::function<void()>;
using RunCase = std::function<void(const std::string&)>;  // reports through fail()

inline void finish(bool exhaustive, const std::map<std::string, std::string>& bounds) {
  auto& s = st();
  std::ostringstream o;
  o << "{\"states\":" << s.states << ",\"transitions\":" << s.transitions << ",\"traces\":" << s.traces
    << ",\"evaluations\":" << s.evaluations << ",\"distinct_outcomes\":" << s.outcomes.size()
    << ",\"exhaustive\":" << (exhaustive && !s.counters.count("not_exhausted") ? "true" : "false") << ",\"counters\":{";
  bool f = true;
  for (auto& c : s.counters) { o << (f ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; f = false; }
  o << "},\"bounds\":{"; f = true;
  for (auto& b : bounds) { o << (f ? "" : ",") << "\"" << esc(b.first) << "\":\"" << esc(b.second) << "\""; f = false; }
  o << "},\"samples\":["; f = true;
  for (auto& x : s.samples) { o << (f ? "" : ",") << "\"" << esc(x) << "\""; f = false; }
  o << "],\"known\":["; f = true;
  for (auto& x : s.known) { o << (f ? "" : ",") << "\"" << esc(x) << "\""; f = false; }
  o << "],\"violations\":["; f = true;
  for (auto& v : s.violations) { o << (f ? "" : ",") << "{\"key\":\"" << esc(v.key) << "\",\"msg\":\"" << esc(v.msg) << "\"}"; f = false; }
  o << "]}";
  printf("\nRESULT %s\n", o.str().c_str());
  fflush(stdout);
  rmdir(tmpdir().c_str());
}

// check_main: enumerate() explores everything; run_case(key) runs one recorded case.
inline int check_main(int argc, char** argv, const Enumerate& enumerate, const RunCase& run_case,
                      const std::function<std::map<std::string, std::string>()>& bounds, bool exhaustive = true) {
  // the same addresses in every run, so that even uses of uninitialized memory repeat
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
  std::cout.rdbuf(nullptr);  // the library prints usage text on misuse
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--thorough") opt().thorough = true;
    else if (a == "--case") { opt().replaying = true; opt().replay = argv[++i]; }
    else if (a == "--prop") opt().prop = argv[++i];
    else if (a == "--jobs") opt().jobs = atoi(argv[++i]);
    else if (a == "--known") opt().known_ids.insert(argv[++i]);
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  if (opt().replaying && opt().replay != "preparation") {
    shards(1, [&](int) { at(opt().replay); run_case(opt().replay); });
    finish(exhaustive, {});
    return 0;
  }
  // Some enumerations call the code under test before they start their shards: a death there is a violation, too.
  fflush(stdout); fflush(stderr);
  tmpdir();
  pid_t p = fork();
  if (p < 0) { perror("fork"); return 3; }
  if (p == 0) { enumerate(); finish(exhaustive, bounds()); fflush(stdout); _exit(0); }
  int ws; while (waitpid(p, &ws, 0) < 0) if (errno != EINTR) { perror("wait"); return 3; }
  if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) return 0;
  if (!WIFSIGNALED(ws) || WTERMSIG(ws) == SIGKILL) { fprintf(stderr, "enumeration failed, status %d\n", ws); return 3; }
  fail("preparation", "the code under test died with signal " + std::to_string(WTERMSIG(ws)) + " (" + strsignal(WTERMSIG(ws)) + ")");
  finish(exhaustive, {});
  return 0;
}

inline std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> r; std::string cur;
  for (char x : s) { if (x == c) { r.push_back(cur); cur.clear(); } else cur += x; }
  r.push_back(cur); return r;
}
inline std::vector<int> ints(const std::string& s, char c = ',') {
  std::vector<int> r; if (s.empty()) return r;
  for (auto& t : split(s, c)) r.push_back(atoi(t.c_str())); return r;
}
inline std::string join(const std::vector<int>& v, char c = ',') {
  std::string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += c; r += std::to_string(v[i]); } return r;
}

}  // namespace mc
