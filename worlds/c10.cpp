// C10: wrapped clocks over simulated clocks that jump, stall and are skewed.
#include "policy.hpp"
#include "sim.hpp"
#include "tracked.hpp"

#include <chrono>
#include <ieme/chrono.hpp>
#include <new>
#include <ratio>
#include <vector>

namespace {

using model::i128;
using model::i64;
using model::Q;
using model::R;
using sim::below;

// The clock of the node that is running.
struct Hardware {
  i64 reading = 0;   // in ticks of the clock type under test
  int reads = 0;
  i64 step = 0;      // every reading moves the clock on
} hw;

template <typename Rep, typename Period, bool Steady>
struct SimClock {
  using rep = Rep;
  using period = Period;
  using duration = std::chrono::duration<rep, period>;
  using time_point = std::chrono::time_point<SimClock>;
  static constexpr bool is_steady = Steady;
  static time_point now() noexcept
  {
    ++hw.reads;
    i64 const r = hw.reading;
    hw.reading += hw.step;
    return time_point(duration(static_cast<rep>(r)));
  }
};

struct Stamp {
  alignas(16) unsigned char bytes[16];
};

struct Case {
  char const* name;
  model::Policy policy;
  i128 max;
  bool steady, wrapper_steady;
  i64 num, den;             // clock tick in target units
  i64 to_common, tick_common; // factors of target unit and tick over their common unit
  void (*now)(Stamp&);
  void (*fractional)(i64 reading, Stamp&); // to_fractional of the underlying time point, in ticks
  R (*parts)(Stamp const&);
  R (*tick_parts)(Stamp const&);
  int (*cmp)(Stamp const&, Stamp const&);
  int (*cmp_tick)(Stamp const&, i64);
  int (*tick_cmp)(i64, Stamp const&);
  R (*diff)(Stamp const&, Stamp const&);
};

template <typename F>
auto in_lib(F&& f)
{
  sim::Lib guard;
  return f();
}

template <typename A, typename B>
int six_of(A const& a, B const& b)
{
  sim::Lib guard;
  return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5;
}

template <typename Rep, typename Tick, typename Target, typename Ops, bool Steady>
struct Impl {
  using C = SimClock<Rep, Tick, Steady>;
  using W = ieme::chrono::clock_wrapper<C, Target, Ops>;
  using T = typename W::time_point;
  using U = ieme::chrono::time_point_like<typename C::time_point>;
  static_assert(sizeof(T) <= sizeof(Stamp) && sizeof(U) <= sizeof(Stamp));
  static_assert(std::is_same_v<typename W::period, typename Target::type>);
  static_assert(std::is_same_v<typename T::duration, typename W::duration>);

  static T const& at(Stamp const& s) { return *std::launder(reinterpret_cast<T const*>(s.bytes)); }
  static typename C::time_point tick(i64 r)
  {
    return typename C::time_point(typename C::duration(static_cast<Rep>(r)));
  }
  template <typename P>
  static R parts_of(P const& p)
  {
    auto const c = p.time_since_epoch().count();
    return {static_cast<i128>(c.num()), static_cast<i128>(c.den())};
  }
  static Case make(char const* name)
  {
    using ToTarget = std::ratio_divide<typename Tick::type, typename Target::type>;
    using Common = typename std::common_type_t<std::chrono::duration<i64, Tick>, std::chrono::duration<i64, Target>>::period;
    Case c {};
    c.name = name;
    c.policy = policy_of<Ops>();
    c.max = static_cast<i128>(std::numeric_limits<Rep>::max());
    c.steady = Steady;
    c.wrapper_steady = W::is_steady;
    c.num = ToTarget::num;
    c.den = ToTarget::den;
    c.to_common = std::ratio_divide<Target, Common>::num;
    c.tick_common = std::ratio_divide<Tick, Common>::num;
    c.now = [](Stamp& s) { ::new (static_cast<void*>(s.bytes)) T(in_lib([] { return W::now(); })); };
    c.fractional = [](i64 r, Stamp& s) {
      ::new (static_cast<void*>(s.bytes)) U(in_lib([&] {
        return ieme::chrono::to_fractional(tick(r));
      }));
    };
    c.parts = [](Stamp const& s) { return parts_of(at(s)); };
    c.tick_parts = [](Stamp const& s) { return parts_of(*std::launder(reinterpret_cast<U const*>(s.bytes))); };
    c.cmp = [](Stamp const& a, Stamp const& b) { return six_of(at(a), at(b)); };
    c.cmp_tick = [](Stamp const& a, i64 r) { return six_of(at(a), tick(r)); };
    c.tick_cmp = [](i64 r, Stamp const& b) { return six_of(tick(r), at(b)); };
    c.diff = [](Stamp const& a, Stamp const& b) {
      auto const d = in_lib([&] { return at(a) - at(b); }).count();
      return R {static_cast<i128>(d.num()), static_cast<i128>(d.den())};
    };
    return c;
  }
};

using namespace ieme::ops;
using one = std::ratio<1>;
using third = std::ratio<1, 3>;
using quarter = std::ratio<1, 4>;
using sixty_fourth = std::ratio<1, 64>;
using mpeg = std::ratio<1, 90000>;
using hour = std::ratio<3600>;
using minute = std::ratio<60>;
using ntsc = std::ratio<1001, 30000>;
using day = std::ratio<86400>;
using week = std::ratio<604800>;
using odd = std::ratio<7, 2>;
#define CASE(rep, tick, target, ops, steady) \
  Impl<rep, tick, target, ops, steady>::make("clock<" #rep ", " #tick "> in " #target " under " #ops)
Case const& clock_case(uint64_t i)
{
  static Case const all[] = {
    CASE(i64, std::milli, one, defaults, true),
    CASE(i64, std::nano, std::milli, defaults, false),
    CASE(i64, std::milli, std::nano, safe, false),
    CASE(i64, ntsc, one, fast_reduced_io, true),
    CASE(i64, one, third, fast, false),
    CASE(int, std::milli, one, defaults, false),
    CASE(i64, std::micro, minute, safe_reduced_i, true),
    CASE(i64, mpeg, ntsc, defaults, false),
    CASE(int, sixty_fourth, sixty_fourth, fast_reduced_o, true),
    CASE(i64, std::nano, std::nano, defaults, true),
    CASE(i64, third, quarter, fast_reduced_i, false),
    CASE(i64, std::micro, one, safe_reduced_o, false),
    CASE(i64, hour, std::milli, defaults, true),
    CASE(int, third, one, fast, false),
    CASE(i64, std::nano, one, fast, false),
    CASE(i64, std::milli, ntsc, safe, true),
    CASE(i64, std::milli, hour, defaults, true),
    CASE(i64, std::micro, day, safe_reduced_i, false),
    CASE(i64, one, week, fast_reduced_o, true),
    CASE(i64, std::milli, odd, fast_reduced_io, false),
    CASE(int, minute, day, safe, true),
    CASE(i64, odd, hour, fast, false),
    CASE(i64, ntsc, minute, safe_reduced_o, false),
    CASE(int, one, minute, defaults, true),
  };
  return all[i];
}
constexpr uint64_t cases = 24;

struct Reading {
  i64 ticks;
  Stamp stamp;
  R rep;   // what the policy is documented to produce
};

void run()
{
  Case const& c = clock_case(below(cases));
  model::Limits const lim {c.max, true};
  unsigned const bits = c.max > INT32_MAX ? 62 : 30;
  // nodes with skewed clocks
  int const nodes = static_cast<int>(1 + below(3));
  i64 clock[3];
  // the largest reading whose exact conversion certainly fits
  i64 const top = static_cast<i64>(c.max / c.num);
  unsigned top_bits = 1;
  while ((top >> top_bits) > 0) ++top_bits;
  unsigned const scale = static_cast<unsigned>(1 + below(top_bits < bits ? top_bits : bits));
  auto const magnitude = [&]() -> i64 {
    i64 v = static_cast<i64>(below(uint64_t(1) << (scale > 62 ? 62 : scale)));
    if (sim::chance(1, 6)) v = top - static_cast<i64>(below(3));
    return v > top ? top : v;
  };
  for (int n = 0; n < nodes; ++n)
  {
    clock[n] = magnitude();
    if (below(2))
    {
      clock[n] = -clock[n];
      sim::count("fault:clock before the epoch");
    }
    if (n) sim::count("fault:clock skew between nodes");
  }
  sim::ev("clock", c.name, nodes, scale);
  sim::judge();
  if (c.wrapper_steady != c.steady)
    sim::violation("steadiness", "%s: is_steady is %d over a clock with %d", c.name, c.wrapper_steady, c.steady);

  std::vector<Reading> history;
  unsigned const mean = sim::chance(1, 30) ? 300 : 12;
  uint64_t shape = 0;
  do
  {
    int const node = static_cast<int>(below(static_cast<uint64_t>(nodes)));
    // what time does
    uint64_t const what = below(6);
    shape = sim::mix(shape, what * 4 + uint64_t(node));
    i64 delta = 0;
    switch (what)
    {
      case 0: break; // stall
      case 1: delta = magnitude(); sim::count("fault:clock jumps forwards"); break;
      case 2: delta = -magnitude(); sim::count("fault:clock jumps backwards"); break;
      default: delta = static_cast<i64>(below(1000)); break;
    }
    if (what == 0) sim::count("fault:clock stalls");
    if (what < 3) sim::nontrivial();
    i64& now = clock[node];
    __int128 const moved = static_cast<__int128>(now) + delta;
    now = moved > top ? top : moved < -top ? -top : static_cast<i64>(moved);
    if (delta > 0) sim::elapse(static_cast<uint64_t>(delta) % 1000000000);

    hw.reading = now;
    hw.step = below(2) ? 1 + static_cast<i64>(below(5)) : 0; // a second reading would differ
    hw.reads = 0;
    model::Tracker t {c.policy, lim};
    Reading r {};
    r.ticks = now;
    r.rep = t.convert({now, 1}, c.num, c.den);
    if (!t.ok)
    {
      sim::count("readings outside the representable domain (skipped)");
      continue;
    }
    c.now(r.stamp);
    R const got = c.parts(r.stamp);
    sim::ev("now", node, now, hw.reads, int64_t(got.n), int64_t(got.d));
    sim::judge();
    if (hw.reads != 1)
      sim::violation("number of readings", "%s: one call of now() took %d readings of the clock beneath", c.name, hw.reads);
    Q const exact = model::make(i128(now) * c.num, c.den);
    if (got.d == 0 || got.n * exact.d != exact.n * got.d)
      sim::violation("inexact reading", "%s: the clock reads %lld ticks, the wrapper %s/%s instead of %s", c.name,
                     static_cast<long long>(now), model::text(got.n).c_str(), model::text(got.d).c_str(),
                     model::text(exact).c_str());
    if (below(4) == 0)
    {
      Stamp s;
      c.fractional(now, s);
      R const f = c.tick_parts(s);
      sim::judge();
      if (f.d == 0 || f.n != i128(now) * f.d)
        sim::violation("to_fractional", "%s: the time point of %lld ticks became %s/%s", c.name,
                       static_cast<long long>(now), model::text(f.n).c_str(), model::text(f.d).c_str());
    }
    history.push_back(r);
    // against readings of this and other nodes
    for (int k = 0; k < 2; ++k)
    {
      Reading const& a = history[below(history.size())];
      Reading const& b = k ? history.back() : history[below(history.size())];
      Q const qa = model::make(i128(a.ticks) * c.num, c.den), qb = model::make(i128(b.ticks) * c.num, c.den);
      model::Tracker t1 {c.policy, lim};
      t1.cmp(a.rep, b.rep);
      if (t1.ok)
      {
        sim::judge();
        int const want = model::six({a.ticks, 1}, {b.ticks, 1}), have = c.cmp(a.stamp, b.stamp);
        sim::ev("compare", a.ticks, b.ticks, have);
        if (have != want)
          sim::violation("order of readings", "%s: readings of %lld and %lld ticks compare as %#x instead of %#x", c.name,
                         static_cast<long long>(a.ticks), static_cast<long long>(b.ticks), have, want);
      }
      model::Tracker t2 {c.policy, lim};
      t2.sub(a.rep, b.rep);
      if (t2.ok)
      {
        sim::judge();
        R const d = c.diff(a.stamp, b.stamp);
        Q const want = model::sub(qa, qb);
        sim::ev("difference", a.ticks, b.ticks, int64_t(d.n), int64_t(d.d));
        if (d.d == 0 || d.n * want.d != want.n * d.d)
          sim::violation("difference of readings", "%s: readings of %lld and %lld ticks differ by %s/%s instead of %s", c.name,
                         static_cast<long long>(a.ticks), static_cast<long long>(b.ticks), model::text(d.n).c_str(),
                         model::text(d.d).c_str(), model::text(want).c_str());
      }
      // against the time points of the clock beneath
      model::Tracker t3 {c.policy, lim};
      i64 const u = b.ticks + static_cast<i64>(below(3)) - 1;
      t3.cmp(t3.convert(a.rep, c.to_common, 1), t3.convert({u, 1}, c.tick_common, 1));
      if (t3.ok)
      {
        sim::judge();
        int const want = model::six({a.ticks, 1}, {u, 1}), have = c.cmp_tick(a.stamp, u);
        int const want2 = model::six({u, 1}, {a.ticks, 1}), have2 = c.tick_cmp(u, a.stamp);
        sim::ev("compare with underlying", a.ticks, u, have, have2);
        if (have != want || have2 != want2)
          sim::violation("order against the clock beneath", "%s: the reading of %lld ticks compares with %lld ticks as %#x/%#x instead of %#x/%#x",
                         c.name, static_cast<long long>(a.ticks), static_cast<long long>(u), have, have2, want, want2);
      }
    }
  } while (sim::more(mean));
  sim::schedule(shape);
  sim::state(sim::mix(shape, scale * 16 + uint64_t(&c - &clock_case(0))));
}

} // namespace

namespace sim {
World const world = {
  "C10", run,
  "ieme::chrono::clock_wrapper, to_fractional, fractional time points and durations (24 combinations of "
  "representation, tick, unit and policy), std::chrono",
  "the clocks beneath the wrapper (stalls, jumps, skew, readings before the epoch)",
  "a run takes a history of readings of 1-3 simulated clocks; non-trivial when a clock stalled or jumped"};
}
