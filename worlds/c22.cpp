// C22: evaluations interrupted at any point by handlers that evaluate too, and
// evaluations abandoned for good, leave no trace in any other. 1-3 threads; an
// interrupt may come at any memory access inside library code, nested, and may
// end by returning, by jumping out of the evaluation it interrupted, or with
// the death of its thread.
#include "calc.hpp"
#include "sim.hpp"
#include "threads.hpp"

#include <csetjmp>
#include <cstring>
#include <vector>

namespace {

using namespace calc;
using sim::below;

constexpr int shared_n = 3, own_n = 3, levels = 3;

struct Op {
  int calc;
  int kind;
  int a, b; // < shared_n: shared, otherwise own
  int dst;
  Args aux;
  TextBuffer text;
};

struct Frame {
  std::jmp_buf exit;
  bool may_jump = false; // the evaluation at this level can be jumped out of
};

struct Sim {
  std::vector<Calc const*> menu;
  std::vector<unsigned> bits;
  std::vector<int> kinds;
  bool skewed = false;
  unsigned jump_1_in = 0, kill_1_in = 0;
  // per calc
  std::vector<std::vector<Slot>> shared;
  // per thread, level, calc
  std::vector<Slot> own[6][levels];
  Frame frame[6][levels];
  uint64_t evaluations = 0, abandoned = 0, nested = 0;

  Slot& mine(int t, int level, int calc, int i) { return own[t][level][size_t(calc) * own_n + size_t(i)]; }

  model::R value(size_t m)
  {
    Calc const& c = *menu[m];
    return skewed ? gen_related(c, c.load(shared[m][below(shared_n)]), bits[m]) : gen_parts(c, bits[m], true);
  }

  Op gen()
  {
    Op o {};
    o.calc = static_cast<int>(below(menu.size()));
    Calc const& c = *menu[size_t(o.calc)];
    o.kind = add_ff;
    for (int tries = 0; tries < 8; ++tries)
    {
      int const k = kinds[below(kinds.size())];
      if (!c.supports(k)) continue;
      o.kind = k;
      break;
    }
    o.a = static_cast<int>(below(shared_n + own_n));
    o.b = static_cast<int>(below(shared_n + own_n));
    o.dst = static_cast<int>(below(own_n));
    gen_aux(c, o.kind, bits[size_t(o.calc)], o.aux, o.text);
    return o;
  }

  // One evaluation by thread t at this level (0: the program, >0: handlers).
  void evaluate(int t, int level, Op const& op)
  {
    Calc const& c = *menu[size_t(op.calc)];
    Args x = op.aux;
    if (x.text) x.text = op.text.data;
    bool const compound = modifies(op.kind);
    Slot& dst = mine(t, level, op.calc, op.dst);
    auto const operand = [&](int i) -> Slot* {
      return i < shared_n ? &shared[size_t(op.calc)][size_t(i)] : &mine(t, level, op.calc, i - shared_n);
    };
    x.a = compound ? &dst : operand(op.a);
    x.b = operand(op.b);
    Result r;
    Expect const e = c.supports(op.kind) ? expect(c, op.kind, x) : Expect {};
    if (!e.ok)
    {
      sim::count("evaluations outside the representable domain (skipped)");
      return;
    }
    model::R const a0 = c.load(*x.a), b0 = c.load(*x.b);
    Args judged_args = x;
    Slot const b_copy = *x.b;
    judged_args.b = &b_copy;
    Slot before[own_n];
    for (int i = 0; i < own_n; ++i) before[i] = mine(t, level, op.calc, i);
    Frame& f = frame[t][level];
    // (streams and exceptions have clean-up of their own: not jumped out of)
    f.may_jump = op.kind != format_ && op.kind != parse_ && op.kind != dec_literal;
    if (setjmp(f.exit) == 0)
    {
      c.exec(op.kind, x, r);
      f.may_jump = false;
      ++evaluations;
      sim::ev("eval", t, level, kind_name(op.kind), c.name, int64_t(a0.n), int64_t(a0.d), int64_t(b0.n), int64_t(b0.d),
              x.i, x.mode, int64_t(r.n), int64_t(r.d), r.v[0]);
      calc::judge(c, op.kind, judged_args, e, a0, r, level ? "in a handler" : "interrupted");
    }
    else
    {
      sim::resume_at_level(level);
      frame[t][level].may_jump = false;
      ++abandoned;
      sim::ev("abandoned", t, level, kind_name(op.kind), c.name);
    }
    // nothing but the target has changed
    for (int i = 0; i < own_n; ++i)
      if (!(compound && i == op.dst) && std::memcmp(&before[i], &mine(t, level, op.calc, i), sizeof(Slot)) != 0)
        sim::violation("operand modified", "%s: %s modified a value it does not assign to", c.name, kind_name(op.kind));
    if (r.type == Result::none && compound)
    { // what an abandoned assignment leaves in its target is open
      model::R const v = value(size_t(op.calc));
      c.store(dst, v.n, v.d);
    }
    else if (!compound && r.type == Result::frac && r.v[0] == 0 && same_rep_result(op.kind) && c.limits.fits(r.n)
             && c.limits.fits(r.d))
      c.store(dst, r.n, r.d);
  }

  void handler(int t, int level)
  {
    ++nested;
    unsigned const mean = sim::chance(1, 10) ? 8 : 1;
    do evaluate(t, level, gen());
    while (sim::more(mean));
    Frame& interrupted = frame[t][level - 1];
    if (jump_1_in && interrupted.may_jump && sim::chance(1, jump_1_in))
    {
      sim::count("fault:evaluation abandoned by a jump out of its handler");
      interrupted.may_jump = false;
      std::longjmp(interrupted.exit, 1);
    }
    if (kill_1_in && sim::chance(1, kill_1_in)) sim::kill_thread();
  }
};

void run()
{
  int ncalcs;
  Calc const* const* const calcs = all(ncalcs);
  // outlives the run's threads: a killed one stays where it is
  Sim& s = *new Sim;
  int const nthreads = sim::chance(1, 2) ? 1 : static_cast<int>(2 + below(2));
  int const nmenu = static_cast<int>(1 + below(3));
  for (int i = 0; i < nmenu; ++i) s.menu.push_back(calcs[below(static_cast<uint64_t>(ncalcs))]);
  int const nkinds = static_cast<int>(1 + below(5));
  for (int i = 0; i < nkinds; ++i)
    s.kinds.push_back(static_cast<int>(below(3) == 0 ? below(cmp_if + 1) : below(kind_count)));
  bool const wide = sim::chance(1, 2);
  s.skewed = sim::chance(1, 3);
  s.jump_1_in = sim::pick({0u, 0u, 2u, 8u});
  s.kill_1_in = nthreads > 1 ? sim::pick({0u, 0u, 3u, 20u}) : 0;
  unsigned const ops_mean = sim::chance(1, 40) ? 150 : sim::chance(1, 6) ? 20 : 4;
  for (size_t m = 0; m < s.menu.size(); ++m)
  {
    Calc const& c = *s.menu[m];
    unsigned const top = c.rep_bits;
    s.bits.push_back(static_cast<unsigned>(wide ? 2 + below(top - 1) : 2 + below(top / 2 - 1)));
    s.shared.emplace_back(shared_n);
    for (int i = 0; i < shared_n; ++i)
    {
      model::R const v = (i && s.skewed) ? gen_related(c, c.load(s.shared[m][0]), s.bits[m]) : gen_parts(c, s.bits[m], true);
      c.store(s.shared[m][size_t(i)], v.n, v.d);
      sim::ev("shared", c.name, i, int64_t(v.n), int64_t(v.d));
    }
  }
  for (int t = 0; t < nthreads; ++t)
    for (int l = 0; l < levels; ++l)
    {
      s.own[t][l].resize(s.menu.size() * own_n);
      for (size_t m = 0; m < s.menu.size(); ++m)
        for (int i = 0; i < own_n; ++i)
        {
          model::R const v = s.value(m);
          s.menu[m]->store(s.mine(t, l, int(m), i), v.n, v.d);
        }
    }
  auto const before = s.shared;
  auto const body = [&](int t) {
    do s.evaluate(t, 0, s.gen());
    while (sim::more(ops_mean));
  };
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < nthreads; ++t) bodies.push_back([&body, t] { body(t); });
  sim::ThreadOptions opt;
  opt.mean_gap = sim::pick({3u, 10u, 40u, 200u});
  opt.preempt_in_lib = nthreads > 1;
  opt.interrupt = [&s](int t, int level) { s.handler(t, level); };
  opt.interrupt_gap = sim::pick({1u, 3u, 10u, 40u});
  opt.interrupts = static_cast<unsigned>(1 + below(sim::pick({4u, 30u, 150u})));
  opt.interrupt_levels = static_cast<int>(1 + below(levels - 1));
  sim::run_threads(bodies.data(), nthreads, opt);

  for (size_t m = 0; m < s.menu.size(); ++m)
    for (int i = 0; i < shared_n; ++i)
      if (std::memcmp(&before[m][size_t(i)], &s.shared[m][size_t(i)], sizeof(Slot)) != 0)
        sim::violation("shared operand modified", "%s: a shared value was modified", s.menu[m]->name);
  // whatever was abandoned, evaluations still come out right afterwards
  opt.interrupt = nullptr;
  for (int n = 0; n < 4; ++n)
    s.evaluate(0, 0, s.gen());
  uint64_t h = s.nested > 8 ? 8 : s.nested;
  h = sim::mix(h, s.abandoned > 4 ? 4 : s.abandoned);
  for (int k : s.kinds) h = sim::mix(h, uint64_t(k));
  for (auto const* c : s.menu) h = sim::mix(h, uint64_t(c - calcs[0]));
  sim::state(sim::mix(h, s.evaluations > 16 ? 16 : s.evaluations));
}

} // namespace

namespace sim {
World const world = {
  "C22", run,
  "all of include/ieme (8 policies x int64/int32/uint32): arithmetic, comparison, queries, "
  "reduction, rounding, powers, hash, float/text conversion, stream operators, mixed numbers, "
  "chrono; libstdc++",
  "interrupts (handlers run at instrumented memory accesses on the interrupted stack), thread scheduler, thread "
  "death, mutexes/once/guards, the clock beneath clock_wrapper, the character buffer beneath the streams",
  "a run is 1-3 threads evaluating menus of operations while handlers interrupt them, evaluate too, and return, "
  "jump out or die; non-trivial when an evaluation was interrupted"};
}
