// C13: the readings of a jumping clock, rounded to whole numbers or to a grid.
#include "calc.hpp"

#include <vector>

namespace {

using namespace calc;
using model::Q;
using model::R;
using sim::below;

struct Quantised {
  R raw;
  Q exact, got;
};

enum Mode { down, up, inwards, nearest };
char const* const mode_name[] = {"floor", "ceil", "trunc", "round"};
constexpr int whole_kind[] = {floor_, ceil_, trunc_, round_};
constexpr int library_mode[] = {2, 1, 0, 3}; // round_mode

struct Quantiser {
  Calc const* c;
  Mode mode;
  i64 grid;          // 0: whole numbers
  Q step() const { return grid ? Q {1, model::iabs(grid)} : Q {1, 1}; }
};

// The library's answer. false: outside the property's domain.
bool quantise(Quantiser const& z, R r, Q& out)
{
  Slot s;
  z.c->store(s, r.n, r.d);
  Args x;
  x.a = &s;
  int kind;
  if (z.grid)
  {
    kind = redenominate_;
    x.i = z.grid;
    x.mode = library_mode[z.mode] + (below(2) ? 4 : 0);
  }
  else if (below(2))
  {
    kind = to_whole_;
    x.mode = library_mode[z.mode];
    if (z.mode == nearest && below(2)) x.mode = 7; // the default mode
  }
  else
    kind = whole_kind[z.mode];
  Result res;
  if (!evaluate(*z.c, kind, x, res, "rounding")) return false;
  if (res.type == Result::ints) out = Q {res.v[0], 1};
  else out = model::make(res.n, res.d);
  sim::ev("quantised", kind, x.mode, int64_t(r.n), int64_t(r.d), int64_t(out.n), int64_t(out.d));
  return true;
}

std::string show(Quantiser const& z, Q const& q)
{
  return std::string(z.c->name) + ": " + mode_name[z.mode] + " to " +
         (z.grid ? "1/" + model::text(model::i128(z.grid)) : std::string("whole numbers")) + " of " + model::text(q);
}

void run()
{
  int n;
  auto const* const calcs = all(n);
  Quantiser z {};
  z.c = calcs[below(static_cast<uint64_t>(n))];
  Calc const& c = *z.c;
  z.mode = static_cast<Mode>(below(4));
  unsigned const top = c.rep_bits;
  unsigned const bits = static_cast<unsigned>(2 + below(sim::chance(1, 3) ? top - 2 : top / 2 - 1));
  if (below(2))
  {
    z.grid = below(3) ? sim::pick<i64>({2, 1, 3, 4, 5, 7, 10, 24, 60, 64, 100, 1000, 44100})
                      : 1 + static_cast<i64>(below(uint64_t(1) << (top > 40 ? 16 : 8)));
    if (c.limits.is_signed && below(2)) z.grid = -z.grid;
  }
  i128 const unit_den = below(2) ? sim::pick<i64>({1000, 24, 3, 90, 64, 12, 2, 7}) : 1 + i128(below(1000));
  sim::ev("quantiser", c.name, int(z.mode), z.grid, int64_t(unit_den));
  i128 now = i128(below(uint64_t(1) << bits));
  if (c.limits.is_signed && below(2))
  {
    now = -now;
    sim::count("fault:clock before the epoch");
  }
  if (below(2)) now = now % (unit_den + 1); // near zero
  std::vector<Quantised> history;
  unsigned const mean = sim::chance(1, 30) ? 300 : 16;
  uint64_t shape = 0;
  do
  {
    R r;
    uint64_t const what = below(10);
    shape = sim::mix(shape, what);
    switch (what)
    {
      case 0: sim::count("fault:clock stalls"); sim::nontrivial(); r = {now, unit_den}; break;
      case 1:
        now += i128(below(uint64_t(1) << bits));
        sim::count("fault:clock jumps forwards");
        sim::nontrivial();
        r = {now, unit_den};
        break;
      case 2:
        now -= i128(below(uint64_t(1) << bits));
        sim::count("fault:clock jumps backwards");
        sim::nontrivial();
        r = {now, unit_den};
        break;
      case 3: // exactly on the grid, or half a step off it, or a hair beside either
      {
        i128 const g = z.grid ? model::iabs(z.grid) : 1;
        i128 k = i128(below(uint64_t(1) << (bits < 20 ? bits : 20))) - (c.limits.is_signed ? (i128(1) << (bits < 20 ? bits : 20)) / 2 : 0);
        uint64_t const which = below(4);
        if (which == 0) r = {k, g};
        else if (which == 1) { r = {2 * k + 1, 2 * g}; sim::count("probe:reading half way between grid points"); }
        else
        {
          i128 const m = 1 + i128(below(1000));
          i128 const half = which == 2 ? 0 : m; // units of 1/(2 g m)
          r = {2 * k * m + half + (below(2) ? 1 : -1), 2 * g * m};
        }
        break;
      }
      case 4: // inside (-1, 1)
        r.d = 1 + i128(below(uint64_t(1) << (bits < 30 ? bits : 30)));
        r.n = i128(below(static_cast<uint64_t>(r.d)));
        if (c.limits.is_signed && below(2)) r.n = -r.n;
        break;
      case 5: r = gen_parts(c, bits); break;
      default:
        now += i128(below(1 + static_cast<uint64_t>(unit_den))) ;
        r = {now, unit_den};
    }
    if (what <= 4 || what > 5)
    { // any representation of the reading
      i128 const f = below(3) ? 1 : 2 + i128(below(6));
      R s {r.n * f, r.d * f};
      if (c.limits.is_signed && below(4) == 0) s = {-s.n, -s.d};
      if (c.limits.fits(s.n) && c.limits.fits(s.d)) r = s;
    }
    if (!c.limits.fits(r.n) || !c.limits.fits(r.d))
    {
      now = now % (unit_den * 8);
      if (!c.limits.is_signed && now < 0) now = -now;
      sim::count("readings outside the representation (skipped)");
      continue;
    }
    sim::elapse(1000000);
    Quantised q;
    q.raw = r;
    q.exact = r.q();
    if (!quantise(z, r, q.got))
    {
      sim::count("readings outside the representable domain (skipped)");
      continue;
    }
    if (q.exact.n != 0 && model::iabs(q.exact.n) < q.exact.d) sim::count("probe:reading between -1 and 1");
    // ---- the invariants over the history
    Q const off = model::sub(q.got, q.exact);
    Q const size = off.n < 0 ? model::neg(off) : off;
    sim::judge();
    bool side = true;
    Q limit = z.step();
    switch (z.mode)
    {
      case down: side = off.n <= 0; break;
      case up: side = off.n >= 0; break;
      case inwards: side = off.n == 0 || ((off.n < 0) == (q.exact.n > 0)); break;
      case nearest: limit = model::mul(limit, {1, 2}); break;
    }
    int const k = model::cmp(size, limit);
    if (!side || k > 0 || (z.mode != nearest && k == 0))
      sim::violation("distance", "%s is %s", show(z, q.exact).c_str(), model::text(q.got).c_str());
    Q const on_grid = model::div(q.got, z.step());
    if (on_grid.d != 1)
      sim::violation("not on the grid", "%s is %s", show(z, q.exact).c_str(), model::text(q.got).c_str());
    if (!history.empty())
    {
      Quantised const& o = history[below(history.size())];
      int const before = model::cmp(o.exact, q.exact), after = model::cmp(o.got, q.got);
      sim::judge();
      // a tie on a grid may go to either side, so equal readings in different
      // representations may differ there; anything else keeps its order
      Q const doubled = model::mul(model::div(q.exact, z.step()), {2, 1});
      bool const tie = z.mode == nearest && z.grid && doubled.d == 1;
      if ((before < 0 && after > 0) || (before > 0 && after < 0) || (before == 0 && after != 0 && !tie))
        sim::violation("order", "%s is %s, but of %s it is %s", show(z, o.exact).c_str(), model::text(o.got).c_str(),
                       model::text(q.exact).c_str(), model::text(q.got).c_str());
    }
    if (c.limits.fits(q.got.n) && c.limits.fits(q.got.d))
    { // a reading on the grid stays
      Q again;
      if (quantise(z, {q.got.n, q.got.d}, again))
      {
        sim::judge();
        if (!model::same(again, q.got))
          sim::violation("not idempotent", "%s is %s", show(z, q.got).c_str(), model::text(again).c_str());
      }
    }
    history.push_back(q);
  } while (sim::more(mean));
  sim::schedule(shape);
  sim::state(sim::mix(shape, uint64_t(z.mode) * 1000003 + uint64_t(z.grid)));
}

} // namespace

namespace sim {
World const world = {
  "C13", run,
  "trunc, ceil, floor, round, to_whole and the redenominate family (8 policies x int64/int32/uint32)",
  "the clock whose readings are quantised (stalls, jumps, readings before the epoch)",
  "a run quantises a history of readings with one rounding mode and grid; non-trivial when the clock stalled or jumped"};
}
