// Deterministic simulation kernel: one integer decides one run.
//
// Every decision of a run (inputs, schedule, delays, faults, crash points) is
// drawn from below(), which in search mode takes it from a PRNG seeded by
// (VERIF_SEED, run index) and records it, and in replay mode takes it from a
// recorded trace (0 once the trace is exhausted: 0 always means "the simplest
// thing / no fault"). Each run executes in its own forked process, so no run
// sees memory another one left behind.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <string>
#include <type_traits>

namespace sim {

// ---- decisions -------------------------------------------------------------
uint64_t below(uint64_t n);                    // [0,n)
inline bool chance(unsigned num, unsigned den) // true with num/den; 0 -> false
{
  return below(den) >= den - num;
}
inline int64_t range(int64_t lo, int64_t hi)   // [lo,hi]; 0 -> lo
{
  return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
}
template <typename T>
T pick(std::initializer_list<T> l)
{
  return l.begin()[below(l.size())];
}
// "go on?" flag of a generated history of mean length about `mean`
inline bool more(unsigned mean) { return below(mean + 1) != 0; }

// ---- the record of the run ---------------------------------------------------
extern bool verbose;
void ev_begin(char const* tag);
void ev_int(int64_t v);
void ev_str(char const* s, size_t n);
void ev_end();
inline void ev_arg(char const* s) { ev_str(s, __builtin_strlen(s)); }
inline void ev_arg(std::string const& s) { ev_str(s.data(), s.size()); }
template <typename T>
  requires(std::is_integral_v<T> || std::is_enum_v<T>)
inline void ev_arg(T v)
{
  ev_int(static_cast<int64_t>(v));
}
template <typename... A>
void ev(char const* tag, A const&... a)
{
  ev_begin(tag);
  (ev_arg(a), ...);
  ev_end();
}

// ---- judgement ---------------------------------------------------------------
[[noreturn]] void violation(char const* cls, char const* fmt, ...)
  __attribute__((format(printf, 2, 3)));
// Ends the run without a verdict on what follows (counted, never a pass).
[[noreturn]] void discard(char const* why);
// A mistake of the harness itself: the whole check ends with an error.
[[noreturn]] void harness_error(char const* fmt, ...)
  __attribute__((format(printf, 1, 2)));
extern uint64_t judged; // property evaluations compared with the oracle
inline void judge() { ++judged; }

// ---- accounting ----------------------------------------------------------------
// Literal strings only. "fault:..." counts injected faults that took effect,
// "probe:..." rare situations reached, anything else is a plain counter.
void count(char const* literal, uint64_t n = 1);
void state(uint64_t h);        // a distinct abstract state was reached
void schedule(uint64_t h);     // a distinct interleaving / fault sequence
void elapse(uint64_t ns);      // simulated time passed
void nontrivial();             // this run exercised what the property is about
extern uint64_t steps;         // deterministic work counter
void check_steps();            // over budget -> violation "hang"
void set_step_limit(uint64_t);

inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 32;
  h *= 0xd6e8feb86659fd93ull;
  h ^= h >> 29;
  return h;
}

// ---- heap faults -----------------------------------------------------------------
// While a Heap guard is active every allocation of the program is counted and
// may be refused.
namespace heap {
extern bool poison;        // overwrite what the run frees
bool intact();             // nothing wrote to what was freed since
extern bool armed;         // count and possibly fail
extern uint64_t requests;  // allocations requested while armed
extern uint64_t refused;
// 0: never, 1: all, 2: the nth, 3: from the nth on, 4: pseudo-randomly
extern int mode;
extern uint64_t nth;
extern unsigned rnd_num, rnd_den;
void arm(int mode, uint64_t nth = 0, unsigned num = 1, unsigned den = 2);
void disarm();
} // namespace heap

// ---- library boundary -----------------------------------------------------------
// Code between enter and leave belongs to the code under test: the scheduler
// may preempt it at any instrumented memory access.
void lib_enter();
void lib_leave();
struct Lib {
  Lib() { lib_enter(); }
  ~Lib() { lib_leave(); }
};
// A value the optimiser cannot see through.
template <typename T>
inline void opaque(T& v)
{
  asm volatile("" : "+m"(v) : : "memory");
}

// ---- world ---------------------------------------------------------------------
struct World {
  char const* property;
  void (*run)();
  char const* real;     // components that run real code
  char const* stub;     // components that are simulated
  char const* rule;     // what a run is and what makes it non-trivial
};
extern World const world;

} // namespace sim
