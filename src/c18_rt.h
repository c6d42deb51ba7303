// A scheduler for two real threads at the memory accesses of instrumented code.
//
// The library is compiled with -fsanitize=thread and linked with the callbacks of c18_rt.cpp
// instead of the sanitizer's. Exactly one of the two threads runs at a time. The accesses are
// recorded; locations touched by both threads and written by one are the conflicts. Before every
// access to a conflicting location the scheduler may hand over to the other thread.
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt {
typedef void (*Body)(int thread);
// Run body(0) and body(1) as two threads, starting with thread first; hand over before the
// conflicting accesses whose running numbers are in sw[0..n) (ascending). Returns the number of
// conflicting accesses met, or -1 if a thread got stuck.
long run(Body body, int first, const long* sw, int n);
// Locations (in units of 8 bytes) at which a handover may happen.
void clear_conflicts();
void add_conflict(uint64_t unit);
bool is_conflict(uint64_t unit);
// The conflicts of the last run.
size_t found(uint64_t* out, size_t max);
extern uint64_t accesses, handovers;
}
