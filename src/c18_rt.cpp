// See c18_rt.h. Compiled without instrumentation; no templates of the standard library here, so
// that none of the instrumented ones is replaced at link time.
#include "c18_rt.h"
#include <cstdlib>
#include <new>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace rt {
uint64_t accesses, handovers;

static __thread int tid = -1;                 // 0 or 1 in the two threads, -1 elsewhere
static __thread int inside;                   // in the scheduler itself
static __thread char *stack_lo, *stack_hi;

// ---- tables of locations, open addressing -------------------------------------------------
struct Table { uint64_t* key; uint8_t* val; size_t cap, n; };
static void table_init(Table& t, size_t cap) {
  if (t.key) munmap(t.key, t.cap*8), munmap(t.val, t.cap);
  t.cap = cap; t.n = 0;
  t.key = (uint64_t*)mmap(0, cap*8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
  t.val = (uint8_t*)mmap(0, cap, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
}
static uint8_t* table_at(Table& t, uint64_t k, bool insert) {
  uint64_t h = (k*0x9e3779b97f4a7c15ull) >> 20;
  for (size_t i = h & (t.cap-1);; i = (i+1) & (t.cap-1)) {
    if (t.key[i] == k) return t.val+i;
    if (!t.key[i]) {
      if (!insert) return 0;
      if (2*t.n > t.cap) abort();
      t.key[i] = k; t.n++; return t.val+i;
    }
  }
}
static Table seen, conf;
void clear_conflicts() { table_init(conf, 1 << 16); }
void add_conflict(uint64_t u) { if (!conf.key) clear_conflicts(); if (conf.n < 30000) *table_at(conf, u, true) = 1; }
bool is_conflict(uint64_t u) { return conf.key && table_at(conf, u, false); }
size_t found(uint64_t* out, size_t max) {
  size_t n = 0;
  for (size_t i = 0; i < seen.cap; i++) if (seen.key[i]) {
    uint8_t v = seen.val[i];                  // bits: read by 0, 1, written by 0, 1
    if (((v & 1) || (v & 4)) && ((v & 2) || (v & 8)) && (v & 12)) { if (n < max) out[n] = seen.key[i]; n++; }
  }
  return n < max ? n : max;
}

// ---- the two threads ----------------------------------------------------------------------
static volatile int cur, done[2], freerun;
static long points; static const long* sw; static int nsw, isw;
static Body body;
static long futex(volatile int* a, int op, int v, const timespec* t) { return syscall(SYS_futex, (int*)a, op, v, t, 0, 0); }
static void wait_turn(int me) {
  while (!freerun) { int c = __atomic_load_n(&cur, __ATOMIC_ACQUIRE); if (c == me) return; futex(&cur, FUTEX_WAIT, c, 0); }
}
static void give(int to) { __atomic_store_n(&cur, to, __ATOMIC_RELEASE); futex(&cur, FUTEX_WAKE, 100, 0); }
static void handover() {
  if (freerun || done[1-tid]) return;
  handovers++; give(1-tid); wait_turn(tid);
}
static void access(const void* a, size_t n, bool w) {
  if (tid < 0 || inside) return;
  if ((char*)a >= stack_lo && (char*)a < stack_hi) return;
  inside = 1;
  accesses++;
  bool point = false;
  for (uint64_t u = (uint64_t)a/8, e = ((uint64_t)a+n-1)/8; u <= e; u++) {
    if (!freerun) *table_at(seen, u, true) |= w ? 4 << tid : 1 << tid;
    if (conf.n && table_at(conf, u, false)) point = true;
  }
  if (point && !freerun) { long p = points++; if (isw < nsw && sw[isw] == p) { isw++; handover(); } }
  inside = 0;
}

// ---- memory: nothing is reused within a run, so that equal addresses are equal objects ------
static char *arena[3], *top[3], *arena_end[3];
static const size_t ARENA = size_t(1) << 32;
static void* take(size_t n) {
  int k = tid+1;
  if (!arena[k]) {
    arena[k] = (char*)mmap((void*)(0x100000000000ull + k*0x10000000000ull), ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (arena[k] == MAP_FAILED) _exit(97);
    top[k] = arena[k]; arena_end[k] = arena[k]+ARENA;
  }
  n = (n+31) & ~size_t(15);
  if (top[k]+n > arena_end[k]) _exit(97);
  char* p = top[k]; top[k] += n; return p;
}

static void* thread(void* x) {
  int me = (int)(long)x;
  pthread_attr_t at; void* lo; size_t sz;
  pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
  stack_lo = (char*)lo; stack_hi = (char*)lo+sz;
  wait_turn(me);
  tid = me; inside = 0;
  body(me);
  inside = 1; tid = -1;
  done[me] = 1;
  give(1-me);
  return 0;
}
long run(Body b, int first, const long* s, int n) {
  table_init(seen, 1 << 20); if (!conf.key) clear_conflicts();
  body = b; sw = s; nsw = n; isw = 0; points = 0; done[0] = done[1] = 0; freerun = 0;
  cur = first;
  pthread_t t[2];
  for (long i = 0; i < 2; i++) if (pthread_create(t+i, 0, thread, (void*)i)) _exit(97);
  bool stuck = false;
  for (int i = 0; i < 2; i++) {
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 20;
    if (pthread_timedjoin_np(t[i], 0, &ts)) { stuck = true; freerun = 1; futex(&cur, FUTEX_WAKE, 100, 0); return -1; }
  }
  return stuck ? -1 : points;
}
}

using rt::access;
void* operator new(size_t n) { if (rt::tid >= 0) return rt::take(n); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
static bool in_arena(void* p) { for (int k = 1; k < 3; k++) if (rt::arena[k] && (char*)p >= rt::arena[k] && (char*)p < rt::arena_end[k]) return true; return false; }
void operator delete(void* p) noexcept { if (p && !in_arena(p)) free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { if (n) access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { if (n) access(p, n, true); }
#define ACC(N) \
  void __tsan_read##N(void* p) { access(p, N, false); } void __tsan_write##N(void* p) { access(p, N, true); } \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false); } void __tsan_unaligned_write##N(void* p) { access(p, N, true); } \
  void __tsan_volatile_read##N(void* p) { access(p, N, false); } void __tsan_volatile_write##N(void* p) { access(p, N, true); } \
  void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false); } void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true); } \
  void __tsan_read_write##N(void* p) { access(p, N, true); } void __tsan_unaligned_read_write##N(void* p) { access(p, N, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* p, int) { access((void*)p, B/8, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile T* p, T v, int) { access((void*)p, B/8, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { access((void*)p, B/8, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { access((void*)p, B/8, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { access((void*)p, B/8, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { access((void*)p, B/8, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { access((void*)p, B/8, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { access((void*)p, B/8, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) { access((void*)p, B/8, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { access((void*)p, B/8, true); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { access((void*)p, B/8, true); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) { access((void*)p, B/8, true); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// Copies made by the compiler, and by the code.
void* memcpy(void* d, const void* s, size_t n) { if (n) access(s, n, false), access(d, n, true); void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void* memmove(void* d, const void* s, size_t n) {
  if (n) access(s, n, false), access(d, n, true);
  void* r = d;
  if ((char*)d <= (char*)s || (char*)d >= (char*)s+n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  else { char* dd = (char*)d+n-1; const char* ss = (const char*)s+n-1; asm volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory"); }
  return r;
}
void* memset(void* d, int c, size_t n) { if (n) access(d, n, true); void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }

// Initialization of local statics. While one of the two threads is inside, the other waits by handing over.
int __cxa_guard_acquire(uint64_t* g) {
  volatile uint8_t* b = (volatile uint8_t*)g;            // byte 0: initialized, byte 1: in progress
  access(g, 1, false);
  while (!b[0] && b[1] && rt::tid >= 0) { rt::inside = 1; if (rt::freerun || rt::done[1-rt::tid]) sched_yield(); else rt::handover(); rt::inside = 0; }
  if (b[0]) return 0;
  b[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t* g) { volatile uint8_t* b = (volatile uint8_t*)g; access(g, 1, true); b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t* g) { volatile uint8_t* b = (volatile uint8_t*)g; b[1] = 0; }

// Locks: a thread that would block hands over instead.
int pthread_mutex_lock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*), (*tr)(pthread_mutex_t*);
  if (!real) { real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); tr = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); }
  if (rt::tid < 0 || rt::inside) return real(m);
  access(m, 4, true);
  int r;
  while ((r = tr(m)) == 16 && !rt::freerun) { rt::inside = 1; if (rt::done[1-rt::tid]) sched_yield(); else rt::handover(); rt::inside = 0; }
  return r == 16 ? real(m) : r;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  static int (*real)(pthread_once_t*, void (*)());
  if (!real) real = (int (*)(pthread_once_t*, void (*)()))dlsym(RTLD_NEXT, "pthread_once");
  if (rt::tid < 0 || rt::inside) return real(o, f);
  int in = rt::inside; rt::inside = 1; int r = real(o, f); rt::inside = in;   // one step
  return r;
}
}
