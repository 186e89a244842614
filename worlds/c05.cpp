// C05: a failing device receives a prefix, the stream says so, nothing follows.
#include "devices.hpp"

#include <string>
#include <vector>

namespace {

using namespace dev;

char storage[OutDevice::capacity];
char ideal[2 * OutDevice::capacity];
size_t ideal_size;

OutPlan gen_plan(size_t accepted, bool unit)
{
  OutPlan p;
  p.kind = static_cast<OutPlan::Kind>(below(OutPlan::kinds));
  // with unitbuf the standard library itself syncs the device in a destructor
  if (unit && p.kind == OutPlan::throws) p.kind = OutPlan::refuse;
  p.at = accepted + below(24) + (sim::chance(1, 3) ? below(200) : 0);
  p.count = sim::pick({size_t(0), size_t(1), size_t(2), size_t(5)});
  return p;
}

void run()
{
  unsigned const buffer = sim::chance(1, 2) ? 0 : static_cast<unsigned>(1 + below(30));
  OutDevice out(storage, buffer);
  std::ostream os(&out);
  bool const unit = sim::chance(1, 5);
  if (unit) os << std::unitbuf;
  out.replace_plan(gen_plan(0, unit));
  uint64_t menu[2] = {below(stream_types), below(stream_types)};
  sim::ev("config", buffer, unit, int(out.plan.kind), out.plan.at, out.plan.count);
  uint64_t pattern = sim::mix(buffer, uint64_t(out.plan.kind) * 100 + out.plan.at);
  unsigned const mean = sim::chance(1, 20) ? 120 : 12;

  ideal_size = 0;
  bool failed = false;       // the stream has reported a failure since the last clear
  bool recovered = false;
  int step = 0;

  auto const check = [&](char const* what, bool must_be_complete) {
    sim::judge();
    size_t const n = out.accepted();
    if (n > ideal_size)
      sim::violation("bytes after the failure", "after %s: %zu bytes accepted, only %zu were due", what, n, ideal_size);
    for (size_t i = 0; i < n; ++i)
      if (out.at(i) != ideal[i])
        sim::violation("not a prefix", "after %s: byte %zu is '%c' instead of '%c' (accepted \"%s\", due \"%s\")",
                       what, i, out.at(i), ideal[i], std::string(out.sink, out.size).c_str(),
                       std::string(ideal, ideal_size).c_str());
    if (must_be_complete && os.good() && n != ideal_size)
      sim::violation("unreported loss", "after %s: the stream is good but only %zu of %zu bytes were accepted",
                     what, n, ideal_size);
    if (n != ideal_size && !os.fail())
      sim::violation("unreported loss", "after %s: %zu of %zu bytes were accepted and the stream has not failed",
                     what, n, ideal_size);
    if (n == ideal_size && os.fail() && !failed && !unit)
      sim::violation("spurious failure", "after %s: every byte was accepted but the stream failed", what);
    if (failed && !os.fail()) sim::violation("failure forgotten", "after %s: the stream recovered by itself", what);
    if (os.fail()) failed = true;
  };

  do
  {
    ++step;
    switch (below(8))
    {
      case 6: // flush; failure to flush is a failure of the stream
      {
        bool const was = failed;
        size_t const before = out.failures;
        os.flush();
        if (!was && out.failures > before) failed = os.fail();
        sim::ev("flush", int(os.rdstate()), out.size);
        check("a flush", true);
        break;
      }
      case 7: // the caller deals with the fault
        if (!failed) break;
        os.clear();
        sim::count("probe:the caller cleared the failure");
        failed = false;
        recovered = true;
        // what reached the stream stays; the rest of the interrupted value is lost
        ideal_size = out.accepted();
        if (below(4)) out.replace_plan(gen_plan(out.size, unit));
        pattern = sim::mix(pattern, uint64_t(out.plan.kind) * 100 + out.plan.at);
        sim::ev("clear", int(out.plan.kind), out.plan.at, out.plan.count);
        break;
      default:
      {
        auto const& t = stream_type(menu[below(2)]);
        i128 const n = gen_part(t, true), d = gen_part(t, true);
        std::string const text = model::text(n) + "/" + model::text(d);
        size_t const calls = out.calls, accepted = out.accepted();
        bool const was = os.fail();
        if (!was)
        {
          std::memcpy(ideal + ideal_size, text.data(), text.size());
          ideal_size += text.size();
        }
        t.write(os, n, d);
        sim::ev("insert", t.name, text, int(os.rdstate()), out.size, out.accepted());
        if (was)
        {
          sim::judge();
          // (unitbuf makes the standard library flush what was accepted before)
          if ((!unit && out.calls != calls) || out.accepted() != accepted)
            sim::violation("bytes after the failure", "inserting %s into a failed stream wrote to it", text.c_str());
          sim::count("probe:insertion into a failed stream");
        }
        check("an insertion", true);
      }
    }
    if (out.failures) sim::nontrivial();
  } while (sim::more(mean) && ideal_size < OutDevice::capacity / 2);
  sim::schedule(pattern);
  sim::state(sim::mix(pattern, menu[0] * 16 + menu[1]) + recovered);
}

} // namespace

namespace sim {
World const world = {
  "C05", run,
  "stream insertion of fraction and raw_fraction (10 types), libstdc++ ostream and num_put",
  "the stream buffer and the device beneath it, with a plan of refused, short and throwing writes",
  "a run inserts a history of values into one stream over a failing device, with flushes and "
  "recoveries; non-trivial when the device failed at least once"};
}
