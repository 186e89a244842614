// C11: elapsed time is conserved across units, whatever the clock does.
#include "span.hpp"
#include "tracked.hpp"

#include <vector>

namespace {

using namespace span;
using model::Tracker;
using sim::below;

Table const* t;
model::Limits const lim {INT64_MAX, true};

struct Reg {
  int u = 0;
  Value v;
  R rep;      // documented representation
  Q seconds;  // exact
};
constexpr int regs = 5;
Reg reg[regs];

Tracker tracker() { return {t->policy, lim}; }

Q in_seconds(R c, i64 num, i64 den) { return model::mul(c.q(), model::make(num, den)); }
Q in_seconds(R c, int u) { return in_seconds(c, unit[u].num, unit[u].den); }

// converts a representation between units as std::chrono does
R conv(Tracker& k, R r, Unit const& from, Unit const& to)
{
  return k.convert(r, i128(from.num) * to.den, i128(from.den) * to.num);
}

bool same_value(Q const& a, Q const& b) { return a.d != 0 && b.d != 0 && model::same(a, b); }

void expect(char const* what, R got, i64 num, i64 den, Q const& want, Reg const& a, Reg const& b)
{
  sim::judge();
  Q const q = got.d == 0 ? model::undef() : in_seconds(got, num, den);
  sim::ev(what, a.u, b.u, int64_t(got.n), int64_t(got.d));
  if (!same_value(q, want))
    sim::violation(what, "%s: %s of %s s (in %s) and %s s (in %s): %s/%s units of %lld/%lld s, which is %s s instead of %s s",
                   t->policy.name, what, model::text(a.seconds).c_str(), unit[a.u].name,
                   model::text(b.seconds).c_str(), unit[b.u].name, model::text(got.n).c_str(), model::text(got.d).c_str(),
                   static_cast<long long>(num), static_cast<long long>(den), model::text(q).c_str(), model::text(want).c_str());
}

void set(Reg& r, int u, R c)
{
  r.u = u;
  r.rep = c;
  r.seconds = in_seconds(c, u);
  t->one[u].make(r.v, c.n, c.d);
}

R gen(unsigned bits)
{
  R r;
  r.n = i128(below(uint64_t(1) << bits));
  if (below(2)) r.n = -r.n;
  r.d = below(3) ? i128(sim::pick({1, 2, 3, 4, 5, 8, 12, 60, 1001})) : 1 + i128(below(uint64_t(1) << (bits < 8 ? bits : 8)));
  return r;
}

uint64_t shape = 0;

void machine(unsigned bits)
{
  for (auto& r : reg) set(r, pick_unit(), gen(bits));
  unsigned const mean = sim::chance(1, 30) ? 300 : 25;
  do
  {
    Reg &a = reg[below(regs)], &b = reg[below(regs)];
    auto const& one = t->one[a.u];
    auto const& pair = t->pair[a.u][b.u];
    Unit const &ua = unit[a.u], &ub = unit[b.u];
    Unit const c = common(ua, ub);
    int const how = static_cast<int>(below(6));
    Tracker k = tracker();
    uint64_t const what = below(18);
    auto const skip = [&] { sim::count("operations outside the representable domain (skipped)"); };
    switch (what)
    {
      case 0: set(a, pick_unit(), gen(bits)); break;
      case 1: case 2:
      { // to another unit and back
        R const there = conv(k, a.rep, ua, ub);
        conv(k, there, ub, ua);
        if (!k.ok) { skip(); break; }
        Value const v = pair.convert(a.v, how);
        expect("conversion", t->one[b.u].count(v), ub.num, ub.den, a.seconds, a, b);
        Value const w = t->pair[b.u][a.u].convert(v, static_cast<int>(below(3)));
        expect("conversion and back", one.count(w), ua.num, ua.den, a.seconds, a, b);
        sim::judge();
        k.cmp(conv(k, a.rep, ua, c), conv(k, there, ub, c));
        if (k.ok && pair.cmp(a.v, v, how) != model::six({0, 1}, {0, 1}))
          sim::violation("conversion", "%s: %s s in %s does not equal itself in %s", t->policy.name,
                         model::text(a.seconds).c_str(), ua.name, ub.name);
        break;
      }
      case 3: case 4:
      {
        R const r = what == 3 ? k.add(conv(k, a.rep, ua, c), conv(k, b.rep, ub, c))
                              : k.sub(conv(k, a.rep, ua, c), conv(k, b.rep, ub, c));
        (void)r;
        if (!k.ok) { skip(); break; }
        Out const o = what == 3 ? pair.add(a.v, b.v, how) : pair.sub(a.v, b.v, how);
        expect(what == 3 ? "sum" : "difference", o.count, o.num, o.den,
               what == 3 ? model::add(a.seconds, b.seconds) : model::sub(a.seconds, b.seconds), a, b);
        break;
      }
      case 5: case 6:
      {
        if (&a == &b) break;
        R const r = what == 5 ? k.add(a.rep, conv(k, b.rep, ub, ua)) : k.sub(a.rep, conv(k, b.rep, ub, ua));
        if (!k.ok) { skip(); break; }
        if (what == 5) pair.add_to(a.v, b.v, how);
        else pair.sub_from(a.v, b.v, how);
        Q const want = what == 5 ? model::add(a.seconds, b.seconds) : model::sub(a.seconds, b.seconds);
        expect(what == 5 ? "accumulation" : "subtraction in place", one.count(a.v), ua.num, ua.den, want, a, b);
        a.rep = r;
        a.seconds = want;
        break;
      }
      case 7:
      {
        R const y = conv(k, b.rep, ub, c);
        R const x = conv(k, a.rep, ua, c);
        if (b.rep.n == 0) break;
        k.div(x, y);
        if (!k.ok) { skip(); break; }
        expect("ratio", pair.ratio(a.v, b.v), 1, 1, model::div(a.seconds, b.seconds), a, b);
        break;
      }
      case 8:
      {
        if (b.rep.n == 0) break;
        k.mod(conv(k, a.rep, ua, c), conv(k, b.rep, ub, c));
        if (!k.ok) { skip(); break; }
        Out const o = pair.rem(a.v, b.v);
        expect("remainder", o.count, o.num, o.den, model::mod(a.seconds, b.seconds), a, b);
        break;
      }
      case 9: case 10:
      {
        k.cmp(conv(k, a.rep, ua, c), conv(k, b.rep, ub, c));
        if (!k.ok) { skip(); break; }
        sim::judge();
        int const got = pair.cmp(a.v, b.v, how), want = model::six(a.seconds, b.seconds);
        sim::ev("compare", a.u, b.u, got);
        if (got != want)
          sim::violation("comparison", "%s: %s s in %s against %s s in %s: %#x instead of %#x", t->policy.name,
                         model::text(a.seconds).c_str(), ua.name, model::text(b.seconds).c_str(), ub.name, got, want);
        break;
      }
      case 11:
      {
        i64 const m = static_cast<i64>(below(40)) - 20;
        if (how % 3 == 2) k.mul(a.rep, {m, 1});
        else k.ok = model::in_domain_ri(k.p, lim, model::times_, a.rep, m);
        if (!k.ok) { skip(); break; }
        expect("scaling", one.scale(a.v, m, how), ua.num, ua.den, model::mul(a.seconds, {m, 1}), a, b);
        break;
      }
      case 12:
      {
        i64 const m = sim::range(1, 20) * (below(2) ? -1 : 1);
        if (how % 2 == 0) k.div(a.rep, {m, 1});
        else k.ok = model::in_domain_ri(k.p, lim, model::over_, a.rep, m);
        if (!k.ok) { skip(); break; }
        expect("division", one.divide(a.v, m, how), ua.num, ua.den, model::div(a.seconds, {m, 1}), a, b);
        break;
      }
      case 13:
      {
        R const f = gen(6);
        bool const over = below(2);
        if (over && f.n == 0) break;
        if (over) k.div(a.rep, f);
        else k.mul(a.rep, f);
        if (!k.ok) { skip(); break; }
        R const got = over ? one.divide_by(a.v, f.n, f.d, how) : one.scale_by(a.v, f.n, f.d, how);
        expect(over ? "division by a fraction" : "scaling by a fraction", got, ua.num, ua.den,
               over ? model::div(a.seconds, f.q()) : model::mul(a.seconds, f.q()), a, b);
        break;
      }
      case 14:
      {
        i64 const m = sim::range(1, 50) * (below(2) ? -1 : 1);
        k.ok = model::in_domain_ri(k.p, lim, model::mod_, a.rep, m);
        if (!k.ok) { skip(); break; }
        expect("remainder by a number", one.rem_by(a.v, m), ua.num, ua.den,
               model::mod(a.seconds, model::make(i128(m) * ua.num, ua.den)), a, b);
        break;
      }
      case 15:
      {
        k.cmp(a.rep, {0, 1});
        if (!k.ok) { skip(); break; }
        expect("negation", one.neg(a.v), ua.num, ua.den, model::neg(a.seconds), a, a);
        expect("absolute value", one.abs(a.v), ua.num, ua.den,
               a.seconds.n < 0 ? model::neg(a.seconds) : a.seconds, a, a);
        break;
      }
      case 16:
      { // with intervals of the standard library
        i64 const m = static_cast<i64>(below(uint64_t(1) << (1 + below(bits)))) - 20;
        Unit const& uw = whole_unit(how);
        Unit const cw = common(ua, uw);
        R const x = conv(k, a.rep, ua, cw), y = conv(k, {m, 1}, uw, cw);
        Q const w = model::make(i128(m) * uw.num, uw.den);
        bool const minus = below(2);
        if (minus) k.sub(x, y);
        else k.add(x, y);
        Tracker k2 = k;
        if (k.ok)
        {
          Out const o = minus ? one.sub_whole(a.v, m, how) : one.add_whole(a.v, m, how);
          expect("arithmetic with a whole interval", o.count, o.num, o.den,
                 minus ? model::sub(a.seconds, w) : model::add(a.seconds, w), a, a);
        }
        else
          skip();
        k2.cmp(x, y);
        if (k2.ok)
        {
          sim::judge();
          int const got = one.cmp_whole(a.v, m, how), want = model::six(a.seconds, w);
          if (got != want)
            sim::violation("comparison", "%s: %s s in %s against a whole interval of %s s: %#x instead of %#x",
                           t->policy.name, model::text(a.seconds).c_str(), ua.name, model::text(w).c_str(), got, want);
        }
        break;
      }
      default:
      {
        unsigned const size = how >= 4 ? 31 : 40;
        i64 const m = static_cast<i64>(below(uint64_t(1) << size)) - (i64(1) << (size - 1));
        expect("to_fractional", one.from_whole(m, how), ua.num, ua.den, model::make(i128(m) * ua.num, ua.den), a, a);
      }
    }
    shape = sim::mix(shape, what * 256 + uint64_t(a.u) * 16 + uint64_t(b.u));
  } while (sim::more(mean));
}

// Laps between the readings of a clock that jumps.
void laps(unsigned bits)
{
  int const uc = pick_unit(); // unit of the readings
  int const ut = pick_unit(); // unit of the total
  i64 now = static_cast<i64>(below(uint64_t(1) << bits));
  if (below(2)) now = -now;
  Reg last, first, total;
  set(last, uc, {now, 1});
  first = last;
  set(total, ut, {0, 1});
  unsigned const mean = sim::chance(1, 20) ? 400 : 20;
  int n = 0;
  do
  {
    i64 delta = 0;
    switch (below(6))
    {
      case 0: sim::count("fault:clock stalls"); sim::nontrivial(); break;
      case 1: delta = static_cast<i64>(below(uint64_t(1) << bits)); sim::count("fault:clock jumps forwards"); sim::nontrivial(); break;
      case 2: delta = -static_cast<i64>(below(uint64_t(1) << bits)); sim::count("fault:clock jumps backwards"); sim::nontrivial(); break;
      default: delta = static_cast<i64>(below(100)); break;
    }
    now += delta;
    sim::elapse(static_cast<uint64_t>(delta < 0 ? 0 : delta) * 1000 % 1000000000);
    Reg reading;
    set(reading, uc, {now, 1});
    int const ul = pick_unit(); // unit of this lap
    shape = sim::mix(shape, uint64_t(ul) * 16 + (delta > 0) + 2 * (delta < 0));
    Tracker k = tracker();
    R const lap_rep = k.sub(reading.rep, last.rep);
    R const lap_in_ul = conv(k, lap_rep, unit[uc], unit[ul]);
    R const sum = k.add(total.rep, conv(k, lap_in_ul, unit[ul], unit[ut]));
    if (!k.ok)
    {
      sim::count("laps outside the representable domain (history ended)");
      break;
    }
    Out const lap = t->pair[uc][uc].sub(reading.v, last.v, below(2) ? 2 : 0);
    Reg lap_reg;
    set(lap_reg, uc, lap.count);
    Value const in_ul = t->pair[uc][ul].convert(lap_reg.v, static_cast<int>(below(3)));
    t->pair[ut][ul].add_to(total.v, in_ul, static_cast<int>(below(2)));
    total.rep = sum;
    total.seconds = model::add(total.seconds, model::sub(reading.seconds, last.seconds));
    last = reading;
    ++n;
    sim::ev("lap", now, ul);
  } while (sim::more(mean));
  Q const want = model::sub(last.seconds, first.seconds);
  expect("sum of laps", t->one[ut].count(total.v), unit[ut].num, unit[ut].den, want, total, last);
  Tracker k = tracker();
  R const whole = k.sub(last.rep, first.rep);
  Unit const c = common(unit[ut], unit[uc]);
  k.cmp(conv(k, total.rep, unit[ut], c), conv(k, whole, unit[uc], c));
  if (k.ok)
  {
    Out const o = t->pair[uc][uc].sub(last.v, first.v, 2);
    Reg r;
    set(r, uc, o.count);
    sim::judge();
    if (t->pair[ut][uc].cmp(total.v, r.v, 0) != model::six({0, 1}, {0, 1}))
      sim::violation("sum of laps", "%s: %d laps do not add up to last minus first", t->policy.name, n);
  }
}

void run()
{
  int n;
  auto const* const tables = all(n);
  t = tables[below(static_cast<uint64_t>(n))];
  unsigned const bits = static_cast<unsigned>(2 + below(30));
  sim::ev("spans", t->policy.name, bits);
  if (below(2)) laps(bits);
  else machine(bits);
  sim::schedule(shape);
  sim::state(shape);
}

} // namespace

namespace sim {
World const world = {
  "C11", run,
  "ieme::chrono durations and time points in 10 units under 8 policies, std::chrono",
  "the clock whose readings are lapped (stalls and jumps)",
  "a run either sums laps between readings of a jumping clock or executes a random program over intervals in "
  "mixed units; non-trivial when the clock stalled or jumped"};
}
