// C07: errors surface exactly as for the plain sequence integer, slash, integer
// under any exception mask, and the program goes on.
#include "devices.hpp"

#include <string>
#include <vector>

namespace {

using namespace dev;

struct Outcome {
  enum How : int { returned, stream_failure, device_error, other } how = returned;
  int state = 0;
  bool operator==(Outcome const&) const = default;
};
char const* name(Outcome::How h)
{
  static char const* const n[] = {"no exception", "ios_base::failure", "the device's exception", "another exception"};
  return n[h];
}

template <typename F>
Outcome attempt(std::ios& s, F&& f)
{
  Outcome o;
  try { f(); }
  catch (std::ios_base::failure const&) { o.how = Outcome::stream_failure; }
  catch (DeviceError const&) { o.how = Outcome::device_error; }
  catch (...) { o.how = Outcome::other; }
  o.state = s.rdstate();
  return o;
}

void compare(char const* what, StreamType const& t, std::string const& text, Outcome got, Outcome want,
             int mask)
{
  sim::ev(what, t.name, text, int(got.how), got.state);
  sim::judge();
  if (got == want) return;
  // Once the device has failed, going on with the parts that are left only adds
  // failbit (and throws if the caller asked for that): stopping there is as good.
  constexpr int bad = std::ios_base::badbit, fail = std::ios_base::failbit;
  bool const left_open = (got.state & bad) && (want.state & bad) && (got.state | fail) == (want.state | fail);
  bool const throws_on_fail = (mask & fail) && !(mask & bad);
  bool const same_way = got.how == want.how
                        || (throws_on_fail && got.how <= Outcome::stream_failure && want.how <= Outcome::stream_failure);
  if (left_open && same_way)
  {
    sim::count("probe:stopped at a failed device");
    return;
  }
  sim::violation(what, "%s: %s \"%s\" with exception mask %d: %s and state %d, but %s and state %d when "
                 "done part by part", t.name, what, text.c_str(), mask, name(got.how), got.state,
                 name(want.how), want.state);
}

// After such a difference the two streams are brought to the same state.
void settle(std::ios& a, std::ios& b)
{
  if (a.rdstate() == b.rdstate()) return;
  for (auto* s : {&a, &b})
    try { s->setstate(std::ios_base::failbit); }
    catch (...) {}
}

std::ios_base::iostate gen_mask()
{
  std::ios_base::iostate m = std::ios_base::goodbit;
  if (below(4) == 0) return m;
  if (below(2)) m |= std::ios_base::failbit;
  if (below(2)) m |= std::ios_base::badbit;
  if (below(3) == 2) m |= std::ios_base::eofbit;
  return m;
}

// the caller (or another part of the program) had set bits before
void preset(std::ios& a, std::ios& b)
{
  auto const bits = sim::pick({std::ios_base::failbit, std::ios_base::eofbit, std::ios_base::badbit,
                               std::ios_base::failbit | std::ios_base::eofbit, std::ios_base::failbit | std::ios_base::badbit});
  sim::count("fault:state bits already set by the caller");
  sim::nontrivial();
  sim::ev("preset", int(bits));
  Outcome const x = attempt(a, [&] { a.setstate(bits); }), y = attempt(b, [&] { b.setstate(bits); });
  if (!(x == y)) sim::violation("preset", "state bits set by the caller differ");
}

char storage[2][OutDevice::capacity];

// A prompt on a buffered stream tied to the one under test: it has to be out
// before the device is touched, or two parties wait for each other for ever.
struct Prompt {
  char text[2][4096];
  OutDevice one {text[0], 60}, two {text[1], 60};
  std::ostream a {&one}, b {&two};
  bool used = false;
  void attach(std::ios& x, std::ios& y)
  {
    used = sim::chance(1, 3);
    if (!used) return;
    x.tie(&a);
    y.tie(&b);
  }
  void ask()
  {
    if (!used || two.size > 4000) return;
    for (auto k = 1 + below(3); k; --k)
    {
      a.put('?');
      b.put('?');
    }
  }
  void compare(char const* what)
  {
    if (used && one.size != two.size)
      sim::violation("tied stream", "%s: %zu characters of the tied stream were out, instead of %zu", what, one.size, two.size);
  }
};

void format(std::ios_base& a, std::ios_base& b)
{
  if (below(3)) return;
  auto const f = sim::pick({std::ios::dec, std::ios::hex, std::ios::oct});
  a.setf(f, std::ios::basefield);
  b.setf(f, std::ios::basefield);
  auto const g = sim::pick({std::ios::showpos, std::ios::showbase, std::ios::uppercase});
  a.setf(g);
  b.setf(g);
}

void output(uint64_t& pattern)
{
  unsigned const buffer = sim::chance(1, 2) ? 0 : static_cast<unsigned>(1 + below(12));
  OutDevice one(storage[0], buffer), two(storage[1], buffer);
  std::ostream a(&one), b(&two);
  OutPlan plan;
  auto const new_plan = [&] {
    plan.kind = static_cast<OutPlan::Kind>(below(OutPlan::kinds));
    plan.at = one.size + below(16);
    plan.count = sim::pick({size_t(0), size_t(1), size_t(3)});
    one.replace_plan(plan);
    two.replace_plan(plan);
    pattern = sim::mix(pattern, uint64_t(plan.kind) * 1000 + plan.at * 8 + plan.count);
  };
  new_plan();
  static Prompt prompt;
  prompt.attach(a, b);
  auto mask = gen_mask();
  a.exceptions(mask);
  b.exceptions(mask);
  format(a, b);
  sim::ev("output", int(mask), buffer, int(plan.kind), plan.at, plan.count);
  unsigned const mean = sim::chance(1, 20) ? 80 : 8;
  do
  {
    if (sim::chance(1, 8))
    {
      Outcome const x = attempt(a, [&] { a.flush(); }), y = attempt(b, [&] { b.flush(); });
      if (!(x == y)) sim::violation("flush", "flushing after fractions differs from flushing after their parts");
    }
    else
    {
      if (sim::chance(1, 12)) preset(a, b);
      auto const& t = stream_type(below(stream_types));
      i128 const n = gen_part(t, true), d = gen_part(t, true);
      if (sim::chance(1, 8))
      {
        auto const w = below(20);
        a.width(static_cast<std::streamsize>(w));
        b.width(static_cast<std::streamsize>(w));
      }
      prompt.ask();
      Outcome const x = attempt(a, [&] { t.write(a, n, d); });
      Outcome const y = attempt(b, [&] { t.plain_write(b, n, d); });
      prompt.compare(t.name);
      compare("insert", t, model::text(n) + "/" + model::text(d), x, y, int(mask));
      settle(a, b);
      if (x.how != Outcome::returned) sim::count("fault:exception delivered to the caller of <<");
      if (one.accepted() != two.accepted() || a.width() != b.width())
        sim::violation("insert", "%s: %zu bytes accepted instead of %zu", t.name, one.accepted(), two.accepted());
      for (size_t i = 0; i < one.accepted(); ++i)
        if (one.at(i) != two.at(i)) sim::violation("insert", "byte %zu differs", i);
    }
    if (one.failures) sim::nontrivial();
    if ((a.fail() || a.eof()) && below(2))
    {
      a.clear();
      b.clear();
      if (below(2)) new_plan();
      else
      {
        one.replace_plan(OutPlan());
        two.replace_plan(OutPlan());
      }
    }
  } while (sim::more(mean));
  // leaving the scope must not throw again
  one.replace_plan(OutPlan());
  two.replace_plan(OutPlan());
}

void input(uint64_t& pattern)
{
  std::string text;
  unsigned const mean = sim::chance(1, 20) ? 60 : 6;
  static char const* const odd[] = {"", " ", "/", "//", "x", "5", "5/", "/7", "5/x", "-", "+3/+4", "5 / 6", "5/ ",
                                    "99999999999999999999/3", "3/99999999999999999999", "0x1f/2", "7;8", "1.5/2", "--1/2",
                                    "-/3", "3/-", "\n\n", "1/2/3", "9/8\n", "\t4\t/\t5", "3\n/\n4"};
  do
  {
    if (below(3)) text += odd[below(sizeof odd / sizeof *odd)];
    else text += std::to_string(static_cast<int>(below(2000)) - 1000) + "/" + std::to_string(below(1000));
    text += sim::pick({" ", "\n", "", ",", " "});
  } while (sim::more(mean));
  InDevice one(text.data(), text.size()), two(text.data(), text.size());
  one.putback = two.putback = below(2);
  InPlan plan;
  auto const new_plan = [&] {
    plan.kind = static_cast<InPlan::Kind>(below(InPlan::kinds));
    plan.at = one.position() + below(12);
    plan.count = below(3);
    one.plan = two.plan = plan;
    one.failures = two.failures = 0;
    pattern = sim::mix(pattern, uint64_t(plan.kind) * 1000 + plan.at * 8 + plan.count);
  };
  new_plan();
  std::istream a(&one), b(&two);
  static Prompt prompt;
  prompt.attach(a, b);
  auto const mask = gen_mask();
  a.exceptions(mask);
  b.exceptions(mask);
  format(a, b);
  if (sim::chance(1, 5))
  {
    a >> std::noskipws;
    b >> std::noskipws;
  }
  sim::ev("input", int(mask), text, int(plan.kind), plan.at, plan.count);
  for (int step = 0; step < 400; ++step)
  {
    if (sim::chance(1, 16)) preset(a, b);
    auto const& t = stream_type(below(stream_types));
    i128 n = 1, d = 2, n2 = 1, d2 = 2;
    prompt.ask();
    Outcome const x = attempt(a, [&] { t.read(a, n, d); });
    Outcome const y = attempt(b, [&] { t.plain_read(b, n2, d2); });
    prompt.compare(t.name);
    compare("extract", t, text, x, y, int(mask));
    settle(a, b);
    if (x.how != Outcome::returned) sim::count("fault:exception delivered to the caller of >>");
    else if (a.fail()) sim::count("probe:failure reported by state only");
    if (!a.fail())
    {
      if (n != n2 || d != d2)
        sim::violation("extract", "%s: %s/%s instead of %s/%s", t.name, model::text(n).c_str(),
                       model::text(d).c_str(), model::text(n2).c_str(), model::text(d2).c_str());
      if (one.position() != two.position())
        sim::violation("extract", "%s: stopped at byte %zu instead of %zu", t.name, one.position(), two.position());
    }
    else
      sim::nontrivial();
    if (a.fail() || a.eof())
    {
      // the program goes on behind the damage
      a.exceptions(std::ios_base::goodbit);
      b.exceptions(std::ios_base::goodbit);
      a.clear();
      b.clear();
      a.exceptions(mask);
      b.exceptions(mask);
      size_t const p = (one.position() > two.position() ? one.position() : two.position()) + 1;
      if (p >= text.size()) break;
      one.seek(p);
      two.seek(p);
      if (below(3) == 2) new_plan();
      else one.plan = two.plan = InPlan();
    }
  }
}

void run()
{
  uint64_t pattern = below(2);
  if (pattern) output(pattern);
  else input(pattern);
  sim::schedule(pattern);
  sim::state(pattern);
}

} // namespace

namespace sim {
World const world = {
  "C07", run,
  "stream insertion and extraction of fraction and raw_fraction (10 types), libstdc++ streams with "
  "exception masks",
  "the stream buffers and devices: refused and throwing writes, early end and throwing reads, damaged text",
  "a run drives two identical faulty devices, one with the library's operators and one part by part, and "
  "compares exceptions, states, bytes and positions; non-trivial when a device failed or a read was refused"};
}
