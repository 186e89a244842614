#include "work.hpp"
#include "sim.hpp"

namespace sim::work {
namespace {

bool counting = false;
uint64_t done = 0;
uint64_t next = ~uint64_t(0); // the step at which something happens
uint64_t crash_step = 0;
bool crashed = false;
Budget budget;
uintptr_t base = 0, lowest = 0;

void plan_next()
{
  next = budget.steps;
  if (crash_step && crash_step < next) next = crash_step;
}

void event()
{
  if (crash_step && done >= crash_step)
  {
    // Everything the node does from here on is lost: it goes on, so that the
    // simulator's own process stays whole, and the caller drops the outcome.
    crashed = true;
    crash_step = 0;
    plan_next();
    return;
  }
  counting = false;
  violation("not done in time", "%s is not done after %llu steps", budget.what,
            static_cast<unsigned long long>(budget.steps));
}

} // namespace

void start(Budget const& b, uint64_t crash_at)
{
  budget = b;
  done = 0;
  crash_step = crash_at;
  crashed = false;
  plan_next();
  base = lowest = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
  counting = true;
}

Cost stop()
{
  counting = false;
  return {done, static_cast<size_t>(base - lowest), crashed};
}

} // namespace sim::work

extern "C" void __sanitizer_cov_trace_pc()
{
  using namespace sim::work;
  if (!counting) return;
  auto const here = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
  if (here < lowest)
  {
    lowest = here;
    if (base - here > budget.stack)
    {
      counting = false;
      sim::violation("stack exceeded", "%s needs more than %zu bytes of stack", budget.what, budget.stack);
    }
  }
  if (++done >= next) event();
}
