// C23: evaluations neither depend on nor disturb the ambient state of their
// thread and process. 1-3 threads whose floating-point environments (rounding
// mode, flush-to-zero, denormals-are-zero, trapping, x87 precision) and whose
// shared global locale keep changing between (the locale: also during)
// evaluations.
#include "calc.hpp"
#include "sim.hpp"
#include "threads.hpp"

#include <cstring>
#include <functional>
#include <locale>
#include <vector>
#include <xmmintrin.h>

namespace {

using namespace calc;
using sim::below;

constexpr int shared_n = 3, own_n = 3;

// ---- the floating-point environment
struct Ambient {
  unsigned mxcsr = 0x1f80;
  unsigned short x87 = 0x037f;
  bool plain() const { return mxcsr == 0x1f80 && x87 == 0x037f; }
};
constexpr unsigned flags = 0x3f; // sticky, not part of the control state

Ambient read_ambient()
{
  Ambient a;
  a.mxcsr = _mm_getcsr() & ~flags;
  asm volatile("fnstcw %0" : "=m"(a.x87) : : "memory");
  return a;
}

void write_ambient(Ambient const& a)
{
  asm volatile("fnclex\n\tfldcw %0" : : "m"(a.x87) : "memory");
  _mm_setcsr(a.mxcsr);
  asm volatile("" : : : "memory");
}

Ambient gen_ambient()
{
  Ambient a;
  unsigned const rounding = static_cast<unsigned>(below(4));
  a.mxcsr |= rounding << 13;
  a.x87 = static_cast<unsigned short>(a.x87 | rounding << 10);
  if (rounding) sim::count("fault:rounding mode changed");
  if (below(3) == 0)
  {
    a.mxcsr |= 0x8000;
    sim::count("fault:flush to zero");
  }
  if (below(3) == 0)
  {
    a.mxcsr |= 0x40;
    sim::count("fault:denormals are zero");
  }
  if (below(4) == 0)
  { // invalid operation, division by zero, overflow
    a.mxcsr &= ~0x680u;
    a.x87 = static_cast<unsigned short>(a.x87 & ~0xdu);
    sim::count("fault:floating-point traps");
  }
  if (below(4) == 0)
  {
    a.x87 = static_cast<unsigned short>((a.x87 & ~0x300u) | (below(2) ? 0x200u : 0u));
    sim::count("fault:x87 precision lowered");
  }
  return a;
}

// ---- the global locale
struct Punct : std::numpunct<char> {
  explicit Punct(char p) : point(p) {}
  char do_decimal_point() const override { return point; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\1"; }
  std::string do_truename() const override { return "1"; }
  char point;
};

std::ctype_base::mask const* nothing()
{
  static std::ctype_base::mask table[std::ctype<char>::table_size] = {};
  return table;
}

struct Letters : std::ctype<char> {
  Letters() : std::ctype<char>(nothing()) {}
  char do_tolower(char) const override { return 'z'; }
  char do_toupper(char) const override { return 'Z'; }
};

struct Locales {
  std::locale all[4];
  Locales()
  {
    all[0] = std::locale::classic();
    all[1] = std::locale(all[0], new Punct(','));
    all[2] = std::locale(std::locale(all[0], new Punct('/')), new Letters);
    all[3] = std::locale(all[0], new Letters);
  }
};

// ---- a run
struct Sim {
  std::vector<Calc const*> menu;
  std::vector<unsigned> bits;
  std::vector<int> kinds;
  bool skewed = false, moving_locale = false;
  std::vector<std::vector<Slot>> shared;
  std::vector<Slot> own[4];
  Ambient ambient[4];
  int locale = 0;
  Locales const* locales = nullptr;
  uint64_t shape = 0, evaluations = 0;

  Slot& mine(int t, int calc, int i) { return own[t][size_t(calc) * own_n + size_t(i)]; }

  model::R value(size_t m)
  {
    Calc const& c = *menu[m];
    return skewed ? gen_related(c, c.load(shared[m][below(shared_n)]), bits[m]) : gen_parts(c, bits[m], true);
  }

  void step(int t)
  {
    size_t const m = below(menu.size());
    Calc const& c = *menu[m];
    int kind = add_ff;
    for (int tries = 0; tries < 8; ++tries)
    {
      int const k = kinds[below(kinds.size())];
      // (streams take their format from the locale by design: C04)
      if (!c.supports(k) || (moving_locale && (k == format_ || k == parse_))) continue;
      kind = k;
      break;
    }
    Args x;
    TextBuffer text;
    gen_aux(c, kind, bits[m], x, text);
    if (kind == from_double && sim::chance(1, 6))
    { // subnormal
      uint64_t const word = 1 + below(uint64_t(1) << (1 + below(51)));
      std::memcpy(&x.real, &word, sizeof word);
    }
    bool const compound = modifies(kind);
    int const dst = static_cast<int>(below(own_n));
    auto const operand = [&](uint64_t i) -> Slot* {
      return i < shared_n ? &shared[m][i] : &mine(t, int(m), int(i) - shared_n);
    };
    uint64_t const ia = below(shared_n + own_n), ib = below(shared_n + own_n);
    Slot& target = mine(t, int(m), dst);
    x.a = compound ? &target : operand(ia);
    x.b = operand(ib);

    // what the surroundings do
    if (below(3) == 0) ambient[t] = gen_ambient();
    if (moving_locale && below(6) == 0)
    {
      locale = static_cast<int>(below(4));
      std::locale::global(locales->all[locale]);
      sim::count("fault:global locale replaced");
    }

    Expect const e = expect(c, kind, x);
    if (!e.ok)
    {
      sim::count("evaluations outside the representable domain (skipped)");
      return;
    }
    Ambient set = ambient[t];
    if (kind == to_float_ || kind == to_double_ || kind == to_long_double_)
    {
      // the quotient itself obeys the environment unless it is exact
      if (!e.q.defined()) set = Ambient {};
      else if ((e.q.d & (e.q.d - 1)) != 0)
      {
        set.mxcsr &= ~0x6000u;
        set.x87 = static_cast<unsigned short>(set.x87 & ~0xc00u);
      }
      if (kind == to_long_double_) set.x87 = static_cast<unsigned short>(set.x87 | 0x300u);
    }
    if (!set.plain() || locale) sim::nontrivial();
    model::R const a0 = c.load(*x.a), b0 = c.load(*x.b);
    Slot const b_copy = *x.b;
    Args judged = x;
    judged.b = &b_copy;
    Result r;
    write_ambient(set);
    c.exec(kind, x, r);
    Ambient const left = read_ambient();
    write_ambient(Ambient {});
    ++evaluations;
    shape = sim::mix(shape, uint64_t(kind) * 4 + uint64_t(t));
    sim::ev("eval", t, kind_name(kind), c.name, int64_t(a0.n), int64_t(a0.d), int64_t(b0.n), int64_t(b0.d), x.i,
            x.mode, int64_t(r.n), int64_t(r.d), r.v[0], int64_t(set.mxcsr), int64_t(set.x87), locale);
    sim::judge();
    if (left.mxcsr != set.mxcsr || left.x87 != set.x87)
      sim::violation("ambient state changed", "%s: %s left the floating-point control words as %#x/%#x instead of %#x/%#x",
                     c.name, kind_name(kind), left.mxcsr, left.x87, set.mxcsr, set.x87);
    calc::judge(c, kind, judged, e, a0, r, "ambient");
    if (!compound && r.type == Result::frac && r.v[0] == 0 && same_rep_result(kind) && c.limits.fits(r.n)
        && c.limits.fits(r.d))
      c.store(target, r.n, r.d);
  }
};

void run()
{
  static Locales const locales;
  int ncalcs;
  Calc const* const* const calcs = all(ncalcs);
  Sim& s = *new Sim;
  s.locales = &locales;
  int const nthreads = sim::chance(1, 2) ? 1 : static_cast<int>(2 + below(2));
  int const nmenu = static_cast<int>(1 + below(3));
  for (int i = 0; i < nmenu; ++i) s.menu.push_back(calcs[below(static_cast<uint64_t>(ncalcs))]);
  int const nkinds = static_cast<int>(1 + below(6));
  for (int i = 0; i < nkinds; ++i)
  {
    uint64_t const what = below(3);
    s.kinds.push_back(static_cast<int>(what == 0   ? below(cmp_if + 1)
                                       : what == 1 ? trunc_ + below(from_text - trunc_ + 1)
                                                   : below(kind_count)));
  }
  s.moving_locale = below(2);
  s.skewed = sim::chance(1, 3);
  bool const wide = sim::chance(1, 2);
  unsigned const mean = sim::chance(1, 40) ? 150 : sim::chance(1, 6) ? 30 : 6;
  for (size_t m = 0; m < s.menu.size(); ++m)
  {
    Calc const& c = *s.menu[m];
    unsigned const top = c.rep_bits;
    s.bits.push_back(static_cast<unsigned>(wide ? 2 + below(top - 1) : 2 + below(top / 2 - 1)));
    s.shared.emplace_back(shared_n);
    for (int i = 0; i < shared_n; ++i)
    {
      model::R const v = (i && s.skewed) ? gen_related(c, c.load(s.shared[m][0]), s.bits[m]) : gen_parts(c, s.bits[m], true);
      c.store(s.shared[m][size_t(i)], v.n, v.d);
      sim::ev("shared", c.name, i, int64_t(v.n), int64_t(v.d));
    }
  }
  for (int t = 0; t < nthreads; ++t)
  {
    s.own[t].resize(s.menu.size() * own_n);
    for (size_t m = 0; m < s.menu.size(); ++m)
      for (int i = 0; i < own_n; ++i)
      {
        model::R const v = s.value(m);
        s.menu[m]->store(s.mine(t, int(m), i), v.n, v.d);
      }
  }
  auto const before = s.shared;
  if (nthreads == 1)
  {
    do s.step(0);
    while (sim::more(mean));
  }
  else
  {
    auto const body = [&](int t) {
      do s.step(t);
      while (sim::more(mean));
    };
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nthreads; ++t) bodies.push_back([&body, t] { body(t); });
    sim::ThreadOptions opt;
    opt.mean_gap = sim::pick({3u, 10u, 40u, 200u});
    sim::run_threads(bodies.data(), nthreads, opt);
  }
  for (size_t m = 0; m < s.menu.size(); ++m)
    for (int i = 0; i < shared_n; ++i)
      if (std::memcmp(&before[m][size_t(i)], &s.shared[m][size_t(i)], sizeof(Slot)) != 0)
        sim::violation("shared operand modified", "%s: a shared value was modified", s.menu[m]->name);
  if (std::locale() != locales.all[s.locale])
    sim::violation("ambient state changed", "an evaluation replaced the global locale");
  std::locale::global(locales.all[0]);
  sim::schedule(s.shape);
  uint64_t h = 0;
  for (int k : s.kinds) h = sim::mix(h, uint64_t(k));
  for (auto const* c : s.menu) h = sim::mix(h, uint64_t(c - calcs[0]));
  for (int t = 0; t < nthreads; ++t) h = sim::mix(h, s.ambient[t].mxcsr * 65536 + s.ambient[t].x87);
  sim::state(sim::mix(h, s.evaluations > 16 ? 16 : s.evaluations));
}

} // namespace

namespace sim {
World const world = {
  "C23", run,
  "all of include/ieme (8 policies x int64/int32/uint32): arithmetic, comparison, queries, reduction, rounding, "
  "powers, hash, float/text conversion, stream operators (classic locale), mixed numbers, chrono; libstdc++; the "
  "processor's floating-point control registers",
  "what changes the environment (rounding mode, flush-to-zero, denormals-are-zero, traps, x87 precision, global "
  "locale), thread scheduler, the character buffer beneath the streams, the clock beneath clock_wrapper",
  "a run is 1-3 threads evaluating menus of operations while their surroundings change; non-trivial when an "
  "evaluation ran in a changed environment"};
}
