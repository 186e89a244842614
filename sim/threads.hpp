// Real threads, one running at a time, switched by recorded decisions at every
// instrumented memory access of the code under test; happens-before race
// detection over the same accesses.
#pragma once
#include <cstdint>
#include <functional>

namespace sim {

struct ThreadOptions {
  unsigned mean_gap = 10;   // accesses between preemptions inside library calls
  bool preempt_in_lib = true;
  bool detect_races = true;
  // Interrupts: while a thread is inside a library call the handler may run on
  // its stack, at any instrumented access and nested up to interrupt_levels
  // deep. Masked during one-time initialisation.
  std::function<void(int thread, int level)> interrupt;
  unsigned interrupt_gap = 10; // accesses between interrupts
  int interrupt_levels = 2;
  unsigned interrupts = 200;   // in one run
};

// Runs the bodies to completion under the scheduler (returns in the caller).
void run_threads(std::function<void()> const* bodies, int n,
                 ThreadOptions const& options);

int current_thread();              // -1 outside run_threads
void yield_point();                // scheduling decision (device calls etc.)
void block_until(bool (*cond)(void*), void* arg, char const* what);
uint64_t switches();
int interrupt_level();             // 0: not in a handler
// A handler has jumped out to an evaluation at this level.
void resume_at_level(int level);
// The calling thread stops for good where it is (nothing is unwound).
[[noreturn]] void kill_thread();

} // namespace sim
