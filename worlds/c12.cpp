// C12: periodic tasks whose deadlines advance by fractional periods, driven by
// a clock that jitters, stalls and jumps, on a node that crashes and restores
// its deadlines from text.
#include "span.hpp"
#include "tracked.hpp"

#include <cstring>
#include <ieme/raw_fraction.hpp>
#include <istream>
#include <ostream>
#include <streambuf>
#include <vector>

namespace {

using namespace span;
using model::Tracker;
using sim::below;

Table const* t;
model::Limits const lim {INT64_MAX, true};

Tracker tracker() { return {t->policy, lim}; }
Q in_seconds(R c, int u) { return model::mul(c.q(), model::make(unit[u].num, unit[u].den)); }
R conv(Tracker& k, R r, Unit const& from, Unit const& to)
{
  return k.convert(r, i128(from.num) * to.den, i128(from.den) * to.num);
}

struct FixedBuf : std::streambuf {
  FixedBuf(char* p, size_t n) { setp(p, p + n); setg(p, p, p + n); }
  size_t written() const { return static_cast<size_t>(pptr() - pbase()); }
};

// Deadlines as they are kept across crashes.
struct Record {
  char text[48];
  size_t size = 0;
  i64 k = 0; // the index of the deadline, for the oracle
};

Record save(R r, i64 k)
{
  Record x;
  FixedBuf buf(x.text, sizeof x.text);
  std::ostream os(&buf);
  {
    sim::Lib guard;
    os << ieme::raw_fraction<i64> {static_cast<i64>(r.n), static_cast<i64>(r.d)};
  }
  x.size = buf.written();
  x.k = k;
  return x;
}
bool load(Record const& x, size_t size, R& r)
{
  char text[48];
  std::memcpy(text, x.text, size);
  FixedBuf buf(text, size);
  std::istream is(&buf);
  ieme::raw_fraction<i64> f {};
  {
    sim::Lib guard;
    is >> f;
  }
  // a torn record is recognised by its missing end (the record is complete
  // only when its last byte is there)
  if (is.fail() || size != x.size) return false;
  r = {f.numerator, f.denominator};
  return true;
}

struct Task {
  int u = 0, v = 0;        // unit of the deadline, unit of the period
  Value deadline, period;
  R rep, period_rep;
  Q start, step;           // seconds
  i64 k = 0;               // the deadline is start + k * step
  R start_rep;
  Record saved, older;
  Q exact() const { return model::add(start, model::mul(step, Q {k, 1})); }
};

std::string text_of(Task const& x)
{
  return std::string(t->policy.name) + ": start " + model::text(x.start) + " s (in " + unit[x.u].name + "), period " +
         model::text(x.step) + " s (in " + unit[x.v].name + "), deadline " + std::to_string(x.k);
}

void check_deadline(Task const& x, char const* after)
{
  R const got = t->one[x.u].count(x.deadline);
  Q const want = x.exact();
  sim::judge();
  if (got.d == 0 || !model::same(in_seconds(got, x.u), want))
    sim::violation("drift", "%s after %s is at %s/%s %s instead of %s s", text_of(x).c_str(), after, model::text(got.n).c_str(),
                   model::text(got.d).c_str(), unit[x.u].name, model::text(want).c_str());
}

// Does the clock reading (whole ticks of unit w) lie at or past the deadline?
// All six answers, both ways around. false: outside the domain.
bool reached(Task const& x, int w, i64 ticks, bool& yes, int how)
{
  Unit const c = common(unit[x.u], unit[w]);
  Tracker k = tracker();
  R const a = conv(k, x.rep, unit[x.u], c), b = conv(k, {ticks, 1}, unit[w], c);
  k.cmp(a, b);
  k.cmp(b, a);
  if (!k.ok) return false;
  Q const deadline = x.exact(), reading = model::mul({ticks, 1}, model::make(unit[w].num, unit[w].den));
  int got, back;
  Value r;
  t->one[w].make(r, ticks, 1);
  got = t->pair[x.u][w].cmp(x.deadline, r, how);
  back = t->pair[w][x.u].cmp(r, x.deadline, how / 2);
  if (w < 2 && how % 3 == 0)
  {
    // seconds and milliseconds of the standard library as well
    int const whole = t->one[x.u].cmp_whole(x.deadline, ticks, w == 0 ? 1 : 0);
    if (whole != got)
      sim::violation("deadline against reading", "%s at %s s: compares differently with %lld %s as a whole interval",
                     text_of(x).c_str(), model::text(deadline).c_str(), static_cast<long long>(ticks), unit[w].name);
  }
  sim::judge();
  int const want = model::six(deadline, reading), want_back = model::six(reading, deadline);
  if (got != want || back != want_back)
    sim::violation("deadline against reading", "%s at %s s against a reading of %s s: %#x/%#x instead of %#x/%#x",
                   text_of(x).c_str(), model::text(deadline).c_str(), model::text(reading).c_str(), got, back, want, want_back);
  yes = back & 32; // reading >= deadline
  // the reading as the whole number a register or counter shows
  Tracker m = tracker();
  R const in_ticks = conv(m, x.rep, unit[x.u], unit[w]);
  if (m.ok && in_domain_cmp_int(t->policy, lim, in_ticks, ticks))
  {
    int const plain = t->pair[x.u][w].cmp_ticks(x.deadline, ticks, 0), plain_back = t->pair[x.u][w].cmp_ticks(x.deadline, ticks, 1);
    sim::count("probe:deadline against a whole number of ticks");
    if (plain != want || plain_back != want_back)
      sim::violation("deadline against ticks", "%s at %s s against %lld ticks of %s: %#x/%#x instead of %#x/%#x",
                     text_of(x).c_str(), model::text(deadline).c_str(), static_cast<long long>(ticks), unit[w].name, plain,
                     plain_back, want, want_back);
  }
  return true;
}

// deadline += period
bool advance(Task& x, int how)
{
  Tracker k = tracker();
  R next;
  bool const same_unit = x.u == x.v;
  next = k.add(x.rep, conv(k, x.period_rep, unit[x.v], unit[x.u]));
  if (!k.ok) return false;
  if (same_unit && how >= 4)
  {
    Out const o = t->pair[x.u][x.v].add(x.deadline, x.period, how - 4);
    t->one[x.u].make(x.deadline, o.count.n, o.count.d);
  }
  else
    t->pair[x.u][x.v].add_to(x.deadline, x.period, how);
  x.rep = next;
  ++x.k;
  return true;
}

void run()
{
  int n;
  auto const* const tables = all(n);
  t = tables[below(static_cast<uint64_t>(n))];
  bool const grows = !t->policy.lcm && !t->policy.reduce_in && !t->policy.reduce_out;
  int const w = pick_unit(); // the clock's tick
  int const tasks = static_cast<int>(1 + below(3));
  bool const marathon = sim::chance(1, 40);
  sim::ev("scheduler", t->policy.name, unit[w].name, tasks);
  uint64_t shape = 0;

  std::vector<Task> task(static_cast<size_t>(tasks));
  i64 now = static_cast<i64>(below(uint64_t(1) << (1 + below(30))));
  if (below(2)) now = -now;
  Q smallest {1000000, 1};
  for (auto& x : task)
  {
    x.u = pick_unit();
    x.v = below(2) ? x.u : pick_unit();
    R start {now, 1};
    // start near the present reading
    Q const s = model::div(model::mul({now, 1}, model::make(unit[w].num, unit[w].den)), model::make(unit[x.u].num, unit[x.u].den));
    start = {model::qfloor(s) + i128(below(5)) - 2, 1};
    if (model::iabs(start.n) > (i128(1) << 50))
    { // too far from the epoch in this unit
      x.u = w;
      start = {now, 1};
    }
    if (!grows && below(2)) start = {start.n * 12 + i128(below(12)), 12};
    static int const dens[] = {3, 1, 7, 30, 24, 1001, 60, 11, 2, 90000, 44100};
    R p {1 + i128(below(below(3) ? 12 : 30030)), grows ? (below(3) ? 1 : 2) : dens[below(11)]};
    x.start_rep = x.rep = start;
    x.period_rep = p;
    t->one[x.u].make(x.deadline, start.n, start.d);
    t->one[x.v].make(x.period, p.n, p.d);
    x.start = in_seconds(start, x.u);
    x.step = in_seconds(p, x.v);
    x.saved = x.older = save(t->one[x.u].count(x.deadline), 0);
    if (model::cmp(x.step, smallest) < 0) smallest = x.step;
    check_deadline(x, "the start");
  }
  // ticks per smallest period, to scale what the clock does
  Q const ratio = model::div(smallest, model::make(unit[w].num, unit[w].den));
  i64 const stride = static_cast<i64>(model::qceil(ratio));

  unsigned const mean = marathon ? 300 : sim::pick({4u, 12u, 40u});
  size_t budget = marathon ? 6000 : 400;
  bool over = false;
  do
  {
    // ---- time passes
    i64 delta;
    switch (below(8))
    {
      case 0: delta = 0; sim::count("fault:clock stalls"); sim::nontrivial(); break;
      case 1:
        delta = stride * static_cast<i64>(below(marathon ? 200 : 20)) + static_cast<i64>(below(uint64_t(stride) + 1));
        sim::count("fault:clock jumps forwards");
        sim::nontrivial();
        break;
      case 2:
        delta = -static_cast<i64>(below(uint64_t(stride) * 3 + 2));
        sim::count("fault:clock jumps backwards");
        sim::nontrivial();
        break;
      case 3: delta = stride; break;
      default: delta = static_cast<i64>(below(uint64_t(stride) * 2 + 2)); break;
    }
    now += delta;
    if (now > (i64(1) << 58) || now < -(i64(1) << 58)) break;
    // (time skipped counts up to a day)
    i128 const ns = i128(delta) * 1000000000 * unit[w].num / unit[w].den, day = i128(86400) * 1000000000;
    if (delta > 0) sim::elapse(static_cast<uint64_t>(ns < day ? ns : day));
    sim::ev("reading", now);
    // sometimes the clock shows exactly a deadline
    if (below(4) == 0)
    {
      Task const& x = task[below(task.size())];
      Q const at = model::div(x.exact(), model::make(unit[w].num, unit[w].den));
      if (at.d == 1 && model::iabs(at.n) < (i128(1) << 60))
      {
        now = static_cast<i64>(at.n);
        sim::count("probe:reading exactly on a deadline");
      }
    }
    for (auto& x : task)
    {
      Q const reading = model::mul({now, 1}, model::make(unit[w].num, unit[w].den));
      // how many firings are due
      i64 due = 0;
      if (model::cmp(reading, x.exact()) >= 0)
      {
        i128 const d = model::qfloor(model::div(model::sub(reading, x.exact()), x.step)) + 1;
        due = static_cast<i64>(d < 4000 ? d : 4000);
      }
      if (due > 3000) { over = true; break; }
      int const how = static_cast<int>(below(12));
      if (due > 2) sim::count("probe:several deadlines behind");
      if (due > 3 && how == 0)
      { // skip ahead: the missed periods at once
        Tracker k = tracker();
        R const many = k.mul(x.period_rep, {due, 1});
        R const next = k.add(x.rep, conv(k, many, unit[x.v], unit[x.u]));
        if (k.ok)
        {
          R const got = t->one[x.v].scale(x.period, due, 2);
          Value v;
          t->one[x.v].make(v, got.n, got.d);
          t->pair[x.u][x.v].add_to(x.deadline, v, static_cast<int>(below(2)));
          x.rep = next;
          x.k += due;
          check_deadline(x, "skipping ahead");
          shape = sim::mix(shape, 99);
          continue;
        }
      }
      i64 fired = 0;
      for (;;)
      {
        bool yes = false;
        if (!reached(x, w, now, yes, how))
        {
          over = true;
          break;
        }
        if (!yes) break;
        ++fired;
        if (fired > due)
          sim::violation("extra firing", "%s: %lld deadlines are due at the reading of %lld ticks of %s but more fire",
                         text_of(x).c_str(), static_cast<long long>(due), static_cast<long long>(now), unit[w].name);
        if (!advance(x, how % 7))
        {
          over = true;
          break;
        }
        check_deadline(x, "advancing");
        if (budget) --budget;
      }
      if (over) break;
      sim::judge();
      sim::ev("fired", fired, x.k);
      shape = sim::mix(shape, static_cast<uint64_t>(fired) * 8 + static_cast<uint64_t>(x.u));
      if (fired != due)
        sim::violation("missed firing", "%s: %lld deadlines are due at the reading of %lld ticks of %s but %lld fire",
                       text_of(x).c_str(), static_cast<long long>(due), static_cast<long long>(now), unit[w].name,
                       static_cast<long long>(fired));
      if (below(3) == 0)
      { // a checkpoint
        x.older = x.saved;
        x.saved = save(t->one[x.u].count(x.deadline), x.k);
      }
    }
    if (over)
    {
      sim::count("deadlines outside the representable domain (history ended)");
      break;
    }
    // ---- crash
    if (sim::chance(1, 15))
    {
      sim::count("fault:crash");
      sim::nontrivial();
      for (auto& x : task)
      {
        R r;
        Record const* from = &x.saved;
        size_t size = x.saved.size;
        if (sim::chance(1, 3))
        {
          size = below(x.saved.size);
          sim::count("fault:torn record");
        }
        if (!load(*from, size, r))
        {
          from = &x.older;
          if (!load(*from, from->size, r))
            sim::violation("unreadable record", "%s: the record \"%.*s\" cannot be read", text_of(x).c_str(),
                           static_cast<int>(from->size), from->text);
        }
        t->one[x.u].make(x.deadline, r.n, r.d);
        x.k = from->k;
        x.rep = r;
        x.saved = x.older = *from;
        check_deadline(x, "restoring");
        sim::ev("restored", x.k);
      }
    }
  } while (budget && sim::more(mean));
  // ---- the k-th deadline in one step equals the one reached step by step
  for (auto& x : task)
  {
    Tracker k = tracker();
    R const many = k.mul(x.period_rep, {x.k, 1});
    R const direct = k.add(x.start_rep, conv(k, many, unit[x.v], unit[x.u]));
    if (!k.ok) continue;
    R const got = t->one[x.v].scale(x.period, x.k, 2);
    Value v, d;
    t->one[x.v].make(v, got.n, got.d);
    t->one[x.u].make(d, x.start_rep.n, x.start_rep.d);
    t->pair[x.u][x.v].add_to(d, v, 1);
    k.cmp(direct, x.rep);
    if (!k.ok) continue;
    sim::judge();
    if (t->pair[x.u][x.u].cmp(d, x.deadline, static_cast<int>(below(2))) != model::six({0, 1}, {0, 1}))
      sim::violation("drift", "%s differs from start plus k periods", text_of(x).c_str());
    if (x.k > 1000) sim::count("probe:more than 1000 periods");
  }
  sim::schedule(shape);
  sim::state(shape);
}

} // namespace

namespace sim {
World const world = {
  "C12", run,
  "fractional time points and durations in 10 units under 8 policies (advance, scale, compare), the stream operators",
  "the clock (jitter, stalls, jumps), the node's storage across crashes",
  "a run drives 1-3 periodic tasks over a history of clock readings; non-trivial when the clock stalled or jumped "
  "or the node crashed"};
}
