// Virtual time of the code under test: every basic block it executes is one
// step. (Objects that count are compiled with -fsanitize-coverage=trace-pc.)
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim::work {

struct Budget {
  uint64_t steps;
  size_t stack;             // bytes below the frame that starts the evaluation
  char const* what;         // for the report
};

// Starts counting. If crash_at is not zero the node dies at that step: nothing it
// does from then on counts.
void start(Budget const&, uint64_t crash_at = 0);
// Ends counting.
struct Cost {
  uint64_t steps;
  size_t stack;
  bool crashed;             // the node died on the way
};
Cost stop();

} // namespace sim::work
