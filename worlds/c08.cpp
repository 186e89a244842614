// C08: zero divisors and undefined samples injected into running computations.
// Every register's model value is exact or undefined (tainted); the library's
// registers have to follow it step by step, and nothing may trap.
#include "calc.hpp"

#include <cmath>
#include <limits>

namespace {

using namespace calc;
using sim::below;

constexpr int regs = 6;
Calc const* c;
Slot slot[regs];
model::Q value[regs];

void set(int r, model::R v)
{
  c->store(slot[r], v.n, v.d);
  value[r] = v.q();
}

// The registers agree with the model.
void check(int r, char const* after)
{
  sim::judge();
  model::R const got = c->load(slot[r]);
  if (value[r].defined() != (got.d != 0))
    sim::violation(value[r].defined() ? "fault spread" : "fault lost",
                   "%s: register %d holds %s/%s after %s but should be %s", c->name, r,
                   model::text(got.n).c_str(), model::text(got.d).c_str(), after,
                   value[r].defined() ? model::text(value[r]).c_str() : "undefined");
  if (value[r].defined() && got.n * value[r].d != value[r].n * got.d)
    sim::violation("inexact", "%s: register %d holds %s/%s after %s instead of %s", c->name, r,
                   model::text(got.n).c_str(), model::text(got.d).c_str(), after,
                   model::text(value[r]).c_str());
}

constexpr int arithmetic[] = {add_ff, sub_ff, mul_ff, div_ff, mod_ff, add_fi, sub_fi, mul_fi, div_fi,
                              mod_fi, add_if, sub_if, mul_if, div_if, mod_if, cadd_ff, csub_ff,
                              cmul_ff, cdiv_ff, cmod_ff, cadd_fi, csub_fi, cmul_fi, cdiv_fi, cmod_fi,
                              mixed_rep, mixed_rep_i, mixed_rep_assign};
constexpr int unary[] = {negate, promote, abs_, reciprocal_, normalize_, reduce_, reduce_signs,
                         construct, parse_, literal_div};
constexpr int observers[] = {cmp_ff, cmp_fi, cmp_if, queries, to_float_, to_double_, to_long_double_,
                             identical, mixed_rep_cmp};

template <size_t N>
int one_of(int const (&l)[N])
{
  return l[below(N)];
}

void run()
{
  int n;
  auto const* const calcs = all(n);
  c = calcs[below(static_cast<uint64_t>(n))];
  unsigned const bits = static_cast<unsigned>(2 + below(c->rep_bits / 2));
  for (int r = 0; r < regs; ++r) set(r, gen_parts(*c, bits));
  unsigned const mean = sim::chance(1, 30) ? 400 : 20;
  unsigned const rate = sim::pick({4u, 12u, 40u});
  sim::ev("machine", c->name, bits, rate);
  uint64_t shape = 0;
  uint64_t tainted_steps = 0;
  do
  {
    int const a = static_cast<int>(below(regs)), b = static_cast<int>(below(regs)), d = static_cast<int>(below(regs));
    Args x;
    TextBuffer text;
    x.a = &slot[a];
    x.b = &slot[b];
    // ---- faults
    if (sim::chance(1, rate))
    {
      uint64_t const f = below(7);
      shape = sim::mix(shape, f);
      sim::nontrivial();
      switch (f)
      {
        case 0: // a reading of zero is used as a divisor
          sim::count("fault:zero value");
          set(b, {0, c->limits.is_signed && below(2) ? -1 - i64(below(4)) : 1 + i64(below(4))});
          break;
        case 1:
          sim::count("fault:undefined value arrives");
          set(d, {below(2) ? gen_int(*c, bits) : 0, 0});
          break;
        case 2:
        {
          sim::count("fault:NaN or infinite sample");
          x.real = sim::pick({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(),
                              -std::numeric_limits<double>::infinity()});
          Result r;
          if (!evaluate(*c, below(2) ? from_double : from_float, x, r, "undefined")) sim::harness_error("sample");
          set(d, {r.n, r.d});
          if (r.d != 0) sim::violation("fault lost", "a NaN sample became defined");
          value[d] = model::undef();
          break;
        }
        case 3:
        {
          sim::count("fault:unreadable number");
          static char const* const bad[] = {"", ".", "1", "1.2.3", "abc", "0x", "1e", "0x1.8", "1.5e+", "'1.0"};
          x.text = bad[below(10)];
          x.text_len = static_cast<unsigned>(__builtin_strlen(x.text));
          Result r;
          if (!evaluate(*c, from_text, x, r, "undefined")) sim::harness_error("text");
          set(d, {r.n, r.d});
          break;
        }
        default: // a zero divisor in the next operation
        {
          sim::count("fault:zero divisor");
          set(b, {0, 1});
          x.i = 0;
          static int const dividing[] = {div_ff, mod_ff, div_fi, mod_fi, div_if, mod_if, cdiv_ff,
                                         cmod_ff, cdiv_fi, cmod_fi};
          int const kind = one_of(dividing);
          if (kind == div_if || kind == mod_if)
          {
            x.a = &slot[b];
            x.i = gen_int(*c, bits);
          }
          bool const compound = kind >= cadd_ff;
          Result r;
          if (!evaluate(*c, kind, x, r, "zero divisor")) break;
          sim::ev("zero divisor", kind_name(kind), a, b, int64_t(r.n), int64_t(r.d));
          if (compound) value[a] = model::undef();
          else set(d, {r.n, r.d});
          check(compound ? a : d, kind_name(kind));
          shape = sim::mix(shape, uint64_t(kind));
        }
      }
      sim::ev("fault", f, a, b, d);
      continue;
    }
    // ---- steps
    uint64_t const what = below(10);
    if (what == 9)
    { // the machine recovers a register
      set(d, gen_parts(*c, bits));
      check(d, "overwriting");
      continue;
    }
    int const kind = what < 6 ? one_of(arithmetic) : what < 8 ? one_of(unary) : one_of(observers);
    if (!c->supports(kind)) continue;
    gen_aux(*c, kind, 1 + static_cast<unsigned>(below(bits)), x, text);
    if (kind == literal_div) x.mode &= 1; // fraction / literal
    bool const compound = modifies(kind);
    Slot b_copy = slot[b];
    Args before = x;
    before.b = &b_copy;
    Expect const e = expect(*c, kind, x);
    if (!e.ok)
    {
      sim::count("steps outside the representable domain (register reset)");
      set(a, gen_parts(*c, 1 + static_cast<unsigned>(below(4))));
      continue;
    }
    bool const tainted = !value[a].defined()
                         || (!value[b].defined()
                             && (kind == mixed_rep || kind == cmp_ff || (kind == mixed_rep_cmp && x.mode % 4 < 2)
                                 || (kind == mixed_rep_assign && x.mode < 5) || (kind >= add_ff && kind <= mod_ff)
                                 || (kind >= cadd_ff && kind <= cmod_ff)));
    tainted_steps += tainted;
    model::R const a0 = c->load(slot[a]);
    Result r;
    c->exec(kind, x, r);
    sim::ev("step", kind_name(kind), a, b, d, x.i, x.mode, int64_t(r.n), int64_t(r.d), r.v[0]);
    calc::judge(*c, kind, before, e, a0, r, "undefined");
    if (r.type == Result::frac)
    {
      if (tainted && r.d != 0)
        sim::violation("fault lost", "%s: %s of an undefined operand is defined (%s/%s)", c->name, kind_name(kind),
                       model::text(r.n).c_str(), model::text(r.d).c_str());
      if (tainted) sim::count("probe:undefined value propagated");
      if (compound)
      {
        value[a] = e.q;
        check(a, kind_name(kind));
      }
      else if (c->limits.fits(r.n) && c->limits.fits(r.d))
      {
        c->store(slot[d], r.n, r.d);
        value[d] = e.q;
        check(d, kind_name(kind));
      }
    }
    if (tainted) shape = sim::mix(shape, uint64_t(kind));
  } while (sim::more(mean));
  for (int r = 0; r < regs; ++r) check(r, "the end of the run");
  sim::schedule(shape);
  uint64_t mask = 0;
  for (int r = 0; r < regs; ++r) mask |= uint64_t(value[r].defined()) << r;
  sim::state(sim::mix(mask, uint64_t(c - calcs[0]) * 64 + (tainted_steps > 20 ? 20 : tainted_steps)));
}

} // namespace

namespace sim {
World const world = {
  "C08", run,
  "arithmetic, comparison, queries, reduction, reciprocal, conversions and text hand-over of fractions "
  "(8 policies x int64/int32/uint32)",
  "none beneath the library; the zero divisors, undefined values, NaN samples and unreadable numbers "
  "are injected by the simulator",
  "a run is a register machine executing a random program with injected zero divisors and undefined values; "
  "non-trivial when at least one was injected"};
}
