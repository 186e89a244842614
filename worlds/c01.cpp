// C01: any interleaving of concurrent evaluations gives every caller the exact
// answer for its own operands. 2-4 threads over shared constant values and
// values of their own; the scheduler switches threads at memory accesses inside
// library code.
#include "calc.hpp"
#include "sim.hpp"
#include "threads.hpp"

#include <cstring>
#include <vector>

namespace {

using namespace calc;
using sim::below;

constexpr int shared_n = 4, own_n = 3;

struct Values {
  Slot slot[shared_n > own_n ? shared_n : own_n];
};

struct Op {
  int calc;   // index into the run's menu
  int kind;
  int a, b;   // < shared_n: shared, otherwise own
  int dst;
  Args aux;
  TextBuffer text;
};

int pick_kind()
{
  // the arithmetic and comparison core half of the time
  if (below(2)) return static_cast<int>(below(cmp_if + 1));
  return static_cast<int>(below(kind_count));
}

void run()
{
  int ncalcs;
  Calc const* const* const calcs = all(ncalcs);
  int const nthreads = static_cast<int>(2 + below(3));
  int const nmenu = static_cast<int>(1 + below(3));
  std::vector<Calc const*> menu;
  for (int i = 0; i < nmenu; ++i)
    menu.push_back(calcs[below(static_cast<uint64_t>(ncalcs))]);
  int const nkinds = static_cast<int>(1 + below(5));
  std::vector<int> kinds;
  for (int i = 0; i < nkinds; ++i) kinds.push_back(pick_kind());
  bool const wide = sim::chance(1, 2);
  bool const skewed = sim::chance(1, 3); // all threads use close operands
  // short runs reach many interleavings; a few long ones reach state that
  // only builds up over a history
  unsigned const ops_mean = sim::chance(1, 40) ? 150 : sim::chance(1, 6) ? 20 : 4;

  std::vector<unsigned> bits;
  std::vector<Values> shared(menu.size());
  std::vector<std::vector<Values>> own(static_cast<size_t>(nthreads),
                                       std::vector<Values>(menu.size()));
  for (size_t m = 0; m < menu.size(); ++m)
  {
    unsigned const top = menu[m]->rep_bits;
    bits.push_back(static_cast<unsigned>(wide ? 2 + below(top - 1) : 2 + below(top / 2 - 1)));
    Calc const& c = *menu[m];
    for (int i = 0; i < shared_n; ++i)
    {
      model::R const v = (i && skewed) ? gen_related(c, c.load(shared[m].slot[0]), bits[m])
                                       : gen_parts(c, bits[m], true);
      c.store(shared[m].slot[i], v.n, v.d);
      sim::ev("shared", c.name, i, int64_t(v.n), int64_t(v.d));
    }
    for (int t = 0; t < nthreads; ++t)
      for (int i = 0; i < own_n; ++i)
      {
        model::R const v = skewed ? gen_related(c, c.load(shared[m].slot[below(shared_n)]), bits[m])
                                  : gen_parts(c, bits[m], true);
        c.store(own[size_t(t)][m].slot[i], v.n, v.d);
      }
  }
  std::vector<Values> const before = shared;

  std::vector<std::vector<Op>> ops(static_cast<size_t>(nthreads));
  for (auto& list : ops)
    do
    {
      Op o {};
      o.calc = static_cast<int>(below(menu.size()));
      Calc const& c = *menu[size_t(o.calc)];
      for (int tries = 0; tries < 8; ++tries)
      {
        o.kind = kinds[below(kinds.size())];
        if (c.supports(o.kind)) break;
        o.kind = add_ff;
      }
      o.a = static_cast<int>(below(shared_n + own_n));
      o.b = static_cast<int>(below(shared_n + own_n));
      o.dst = static_cast<int>(below(own_n));
      gen_aux(c, o.kind, bits[size_t(o.calc)], o.aux, o.text);
      list.push_back(o);
    } while (sim::more(ops_mean));

  uint64_t evaluations = 0;
  auto const body = [&](int t) {
    for (Op const& op : ops[size_t(t)])
    {
      Calc const& c = *menu[size_t(op.calc)];
      Values& mine = own[size_t(t)][size_t(op.calc)];
      Values& theirs = shared[size_t(op.calc)];
      Args x = op.aux;
      if (x.text) x.text = op.text.data;
      bool const compound = modifies(op.kind);
      Slot& dst = mine.slot[op.dst];
      auto const operand = [&](int i) -> Slot* {
        return i < shared_n ? &theirs.slot[i] : &mine.slot[i - shared_n];
      };
      x.a = compound ? &dst : operand(op.a);
      x.b = operand(op.b);
      if (compound && x.b == &dst) sim::count("probe:compound assignment from itself");
      Result r;
      Expect const e = c.supports(op.kind) ? expect(c, op.kind, x) : Expect {};
      if (!e.ok)
      {
        sim::count("evaluations outside the representable domain (skipped)");
        continue;
      }
      model::R const a0 = c.load(*x.a), b0 = c.load(*x.b);
      Args judged_args = x;
      Slot const b_copy = *x.b;
      judged_args.b = &b_copy; // x.b may be modified when it is the target
      sim::yield_point();
      c.exec(op.kind, x, r);
      ++evaluations;
      sim::ev("eval", t, kind_name(op.kind), c.name, int64_t(a0.n), int64_t(a0.d), int64_t(b0.n),
              int64_t(b0.d), x.i, x.mode, int64_t(r.n), int64_t(r.d), r.v[0]);
      calc::judge(c, op.kind, judged_args, e, a0, r, "concurrent");
      if (!compound && r.type == Result::frac && r.v[0] == 0 && same_rep_result(op.kind)
          && c.limits.fits(r.n) && c.limits.fits(r.d))
        c.store(dst, r.n, r.d);
    }
  };
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < nthreads; ++t) bodies.push_back([&body, t] { body(t); });
  sim::ThreadOptions opt;
  opt.mean_gap = sim::pick({1u, 3u, 10u, 40u, 200u});
  opt.preempt_in_lib = true;
  sim::run_threads(bodies.data(), nthreads, opt);

  for (size_t m = 0; m < menu.size(); ++m)
    for (int i = 0; i < shared_n; ++i)
      if (std::memcmp(&before[m].slot[i], &shared[m].slot[i], sizeof(Slot)) != 0)
        sim::violation("shared operand modified", "%s: a shared value was modified", menu[m]->name);
  uint64_t h = sim::switches() > 8 ? 8 : sim::switches();
  for (int k : kinds) h = sim::mix(h, uint64_t(k));
  for (auto const* c : menu) h = sim::mix(h, uint64_t(c - calcs[0]));
  sim::state(sim::mix(h, evaluations > 16 ? 16 : evaluations));
}

} // namespace

namespace sim {
World const world = {
  "C01", run,
  "all of include/ieme (8 policies x int64/int32/uint32): arithmetic, comparison, queries, "
  "reduction, rounding, powers, hash, float/text conversion, stream operators, mixed numbers, "
  "chrono; libstdc++",
  "thread scheduler (real pthreads run one at a time, switched at instrumented memory accesses), "
  "mutexes/once/guards, the clock beneath clock_wrapper, the character buffer beneath the streams",
  "a run is 2-4 threads evaluating menus of operations on shared and own values under one "
  "schedule; non-trivial when a thread was preempted inside a library call"};
}
