// C02: replicas of a running total behind a network that loses, duplicates,
// reorders, delays and partitions, on nodes that crash and rebuild from a log.
#include "policy.hpp"
#include "sim.hpp"
#include "tracked.hpp"

#include <algorithm>
#include <cstring>
#include <ieme/ieme.hpp>
#include <new>
#include <set>
#include <vector>

namespace {

using model::i128;
using model::i64;
using model::Limits;
using model::Q;
using model::R;
using model::Tracker;
using sim::below;

struct Value {
  alignas(16) unsigned char bytes[32] = {};
};

// One number type a replica may accumulate in.
struct Type {
  char const* name;
  bool mixed;
  Limits limits;    // of the fractional part
  Limits whole;     // of the whole part
  void (*zero)(Value&);
  void (*add)(Value&, R a, int scaling, i64 k, bool minus, int how);
  void (*add_int)(Value&, i64 k, bool minus, int how);
  void (*merge)(Value&, Value const&, bool minus, int how);
  R (*total)(Value const&);
  void (*parts)(Value const&, i128& w, R& f);
  bool (*is_zero)(Value const&);
  void (*common)(Value const&, Value&);
};

struct Family {
  model::Policy policy;
  Type type[6];
  bool (*equal)(Value const&, Value const&); // of common values
};

template <typename F>
auto in_lib(F&& f)
{
  sim::Lib guard;
  return f();
}
template <typename T>
T& as(Value& v) { return *std::launder(reinterpret_cast<T*>(v.bytes)); }
template <typename T>
T const& as(Value const& v) { return *std::launder(reinterpret_cast<T const*>(v.bytes)); }

template <typename T>
Limits limits_of()
{
  return {static_cast<i128>(std::numeric_limits<T>::max()), true};
}

template <typename Rep, typename Ops>
struct Plain {
  using F = ieme::fraction<Rep, Ops>;
  static F contribution(R a, int scaling, i64 k)
  {
    F const f(static_cast<Rep>(a.n), static_cast<Rep>(a.d));
    auto const i = static_cast<Rep>(k);
    switch (scaling)
    {
      case 1: return f * i;
      case 2: return i * f;
      case 3: return f / i;
      case 4: { F g = f; g *= i; return g; }
      case 5: { F g = f; g /= i; return g; }
      default: return f;
    }
  }
  static Type make(char const* name)
  {
    Type t {};
    t.name = name;
    t.limits = t.whole = limits_of<Rep>();
    t.zero = [](Value& v) { ::new (static_cast<void*>(v.bytes)) F(); };
    t.add = [](Value& v, R a, int scaling, i64 k, bool minus, int how) {
      F& f = as<F>(v);
      sim::Lib guard;
      F const c = contribution(a, scaling, k);
      if (minus)
        switch (how % 4)
        {
          case 0: f = f - c; break;
          case 1: f -= c; break;
          case 2: f = f + -c; break;
          default: f = -c + f; break;
        }
      else
        switch (how % 4)
        {
          case 0: f = f + c; break;
          case 1: f += c; break;
          case 2: f = c + f; break;
          default: f = f - -c; break;
        }
    };
    t.add_int = [](Value& v, i64 k, bool minus, int how) {
      F& f = as<F>(v);
      auto const i = static_cast<Rep>(k);
      sim::Lib guard;
      if (minus)
        switch (how % 3)
        {
          case 0: f = f - i; break;
          case 1: f -= i; break;
          default: f = -(i - f); break;
        }
      else
        switch (how % 3)
        {
          case 0: f = f + i; break;
          case 1: f += i; break;
          default: f = i + f; break;
        }
    };
    t.merge = [](Value& v, Value const& o, bool minus, int how) {
      F& f = as<F>(v);
      F const& c = as<F>(o);
      sim::Lib guard;
      if (minus)
      {
        if (how % 2) f -= c;
        else f = f - c;
      }
      else if (how % 2) f += c;
      else f = c + f;
    };
    t.total = [](Value const& v) {
      F const& f = as<F>(v);
      return R {static_cast<i128>(f.num()), static_cast<i128>(f.den())};
    };
    t.parts = nullptr;
    t.is_zero = [](Value const& v) {
      F const& f = as<F>(v);
      return in_lib([&] { return is_zero(f) && f == Rep(0) && Rep(0) == f && f == F(); });
    };
    t.common = [](Value const& v, Value& out) {
      ::new (static_cast<void*>(out.bytes)) ieme::fraction<i64, Ops>(as<F>(v));
    };
    return t;
  }
};

template <typename W, typename Rep, typename Ops>
struct Mixed {
  using M = ieme::mixed_number<W, Rep, Ops>;
  using F = ieme::fraction<Rep, Ops>;
  static Type make(char const* name)
  {
    Type t {};
    t.name = name;
    t.mixed = true;
    t.limits = limits_of<Rep>();
    t.whole = limits_of<W>();
    t.zero = [](Value& v) { ::new (static_cast<void*>(v.bytes)) M(); };
    t.add = [](Value& v, R a, int scaling, i64 k, bool minus, int how) {
      M& m = as<M>(v);
      sim::Lib guard;
      F const c = Plain<Rep, Ops>::contribution(a, scaling, k);
      switch (how % 4)
      {
        case 0: m = m + (minus ? -c : c); break;
        case 1: m = (minus ? -c : c) + m; break;
        case 2: m = m + (minus ? -M(c) : +M(c)); break;
        default: m = M(minus ? -c : c) + m; break;
      }
    };
    t.add_int = [](Value& v, i64 k, bool minus, int how) {
      M& m = as<M>(v);
      auto const i = static_cast<W>(minus ? -k : k);
      sim::Lib guard;
      switch (how % 3)
      {
        case 0: m = m + i; break;
        case 1: m = i + m; break;
        default: m = m + M(i); break;
      }
    };
    t.merge = [](Value& v, Value const& o, bool minus, int how) {
      M& m = as<M>(v);
      M const& c = as<M>(o);
      sim::Lib guard;
      if (minus) m = how % 2 ? -c + m : m + -c;
      else m = how % 2 ? c + m : m + c;
    };
    t.total = [](Value const& v) {
      M const& m = as<M>(v);
      auto const f = in_lib([&] { return m.as_fraction(); });
      return R {static_cast<i128>(f.num()), static_cast<i128>(f.den())};
    };
    t.parts = [](Value const& v, i128& w, R& f) {
      M const& m = as<M>(v);
      w = static_cast<i128>(m.whole());
      f = {static_cast<i128>(m.fractional().num()), static_cast<i128>(m.fractional().den())};
    };
    t.is_zero = [](Value const& v) {
      M const& m = as<M>(v);
      return in_lib([&] { return m.whole() == 0 && is_zero(m.fractional()) && is_zero(m.as_fraction()); });
    };
    t.common = [](Value const& v, Value& out) {
      M const& m = as<M>(v);
      ::new (static_cast<void*>(out.bytes)) ieme::fraction<i64, Ops>(in_lib([&] { return m.as_fraction(); }));
    };
    return t;
  }
};

template <typename Ops>
Family family()
{
  using C = ieme::fraction<i64, Ops>;
  return {policy_of<Ops>(),
          {Plain<i64, Ops>::make("fraction<int64>"), Mixed<i64, i64, Ops>::make("mixed_number<int64>"),
           Plain<i64, Ops>::make("fraction<int64>"), Plain<int, Ops>::make("fraction<int>"),
           Mixed<int, int, Ops>::make("mixed_number<int>"), Mixed<i64, int, Ops>::make("mixed_number<int64, int>")},
          [](Value const& a, Value const& b) {
            return in_lib([&] { return as<C>(a) == as<C>(b) && !(as<C>(a) != as<C>(b)) && as<C>(a) <= as<C>(b); });
          }};
}

Family const& family(uint64_t i)
{
  using namespace ieme::ops;
  static Family const all[] = {family<safe_reduced_io>(), family<safe>(), family<safe_reduced_i>(),
                               family<safe_reduced_o>(), family<fast>(), family<fast_reduced_i>(),
                               family<fast_reduced_o>(), family<fast_reduced_io>()};
  return all[i];
}

// ---- contributions --------------------------------------------------------------
struct Contribution {
  bool integer = false;
  R a;
  int scaling = 0;
  i64 k = 1;
  bool minus = false;
  Q exact() const
  {
    Q q = integer ? Q {k, 1} : a.q();
    if (!integer && (scaling == 1 || scaling == 2 || scaling == 4)) q = model::mul(q, Q {k, 1});
    if (!integer && (scaling == 3 || scaling == 5)) q = model::div(q, Q {k, 1});
    return minus ? model::neg(q) : q;
  }
};

// ---- an accumulator and the model beside it ---------------------------------------
struct Total {
  Type const* t = nullptr;
  Value v;
  Q exact;
  R rep;        // documented representation (plain)
  i128 w = 0;   // (mixed)
};

Family const* fam;

[[noreturn]] void outside() { sim::discard("a partial sum outside the representable domain"); }

Tracker tracker(Type const& t) { return {fam->policy, t.limits}; }

void start(Total& x, Type const& t)
{
  x.t = &t;
  t.zero(x.v);
  x.exact = {0, 1};
  x.rep = {0, 1};
  x.w = 0;
}

// room for the library to repair a mixed number in whatever order it likes
void fix(Total& x, R s, i128 w)
{
  Limits const& l = x.t->limits;
  Tracker k = tracker(*x.t);
  i128 const margin = 2 * model::iabs(s.n) + 2 * model::iabs(s.d);
  if (!l.fits(margin) || !x.t->whole.fits(model::iabs(w) + 4)) outside();
  Q const q = model::add(s.q(), {w, 1});
  i128 const t = model::qtrunc(s.q());
  if (t != 0)
  {
    s = k.ri(model::minus_, s, t);
    w += t;
  }
  if (w > 0 && s.q().n < 0)
  {
    w -= 1;
    s = k.ir(model::plus_, 1, s);
  }
  else if (w < 0 && s.q().n > 0)
  {
    w += 1;
    s = k.ir(model::plus_, -1, s);
  }
  if (!k.ok || !model::same(model::add(s.q(), {w, 1}), q)) outside();
  x.rep = s;
  x.w = w;
}

void verify(Total const& x, char const* after)
{
  sim::judge();
  R r;
  if (x.t->mixed)
  {
    i128 w;
    x.t->parts(x.v, w, r);
    sim::ev(after, int64_t(w), int64_t(r.n), int64_t(r.d));
    if (r.d == 0 || !model::same(model::add(r.q(), {w, 1}), x.exact))
      sim::violation("inexact total", "%s, %s: %s + %s/%s instead of %s", fam->policy.name, x.t->name,
                     model::text(w).c_str(), model::text(r.n).c_str(), model::text(r.d).c_str(), model::text(x.exact).c_str());
    Q const q = r.q();
    if ((w > 0 && q.n < 0) || (w < 0 && q.n > 0) || model::iabs(q.n) >= q.d)
      sim::violation("improper mixed number", "%s, %s: the value %s is held as %s + %s/%s", fam->policy.name, x.t->name,
                     model::text(x.exact).c_str(), model::text(w).c_str(), model::text(r.n).c_str(), model::text(r.d).c_str());
  }
  else
  {
    r = x.t->total(x.v);
    sim::ev(after, int64_t(r.n), int64_t(r.d));
    if (r.d == 0 || !model::same(r.q(), x.exact))
      sim::violation("inexact total", "%s, %s: %s/%s instead of %s", fam->policy.name, x.t->name,
                     model::text(r.n).c_str(), model::text(r.d).c_str(), model::text(x.exact).c_str());
  }
}

void verify_canonical(Total const& x)
{
  if (!fam->policy.reduce_out || x.t->mixed) return;
  R const r = x.t->total(x.v);
  sim::judge();
  if (r.d <= 0 || model::igcd(r.n, r.d) != 1)
    sim::violation("total not in lowest terms", "%s, %s: %s/%s", fam->policy.name, x.t->name, model::text(r.n).c_str(),
                   model::text(r.d).c_str());
}

void apply(Total& x, Contribution const& c, int how, char const* after)
{
  Type const& t = *x.t;
  Tracker k = tracker(t);
  if (c.integer)
  {
    i128 const i = c.minus ? -i128(c.k) : i128(c.k);
    if (t.mixed)
    {
      R const f = x.rep;
      fix(x, f, x.w + i);
    }
    else
    {
      // k - total and its negation reach the same terms with the opposite sign
      R const r = k.ri(c.minus ? model::minus_ : model::plus_, x.rep, c.k);
      if (!k.ok) outside();
      x.rep = r;
    }
    t.add_int(x.v, c.k, c.minus, how);
  }
  else
  {
    R a = c.a;
    switch (c.scaling)
    {
      case 1: case 4: a = k.ri(model::times_, a, c.k); break;
      case 2: a = k.ir(model::times_, c.k, a); break;
      case 3: case 5: a = k.ri(model::over_, a, c.k); break;
      default: break;
    }
    if (t.mixed)
    {
      // the contribution as a mixed number, then the sum
      i128 const w = model::qtrunc(a.q());
      R f = k.ri(model::minus_, a, w);
      if (c.minus) f.n = -f.n;
      R const s = k.add(x.rep, f);
      if (!k.ok) outside();
      fix(x, s, x.w + (c.minus ? -w : w));
    }
    else
    {
      R const r = c.minus ? k.sub(x.rep, a) : k.add(x.rep, a);
      if (!k.ok) outside();
      x.rep = r;
    }
    t.add(x.v, c.a, c.scaling, c.k, c.minus, how);
  }
  x.exact = model::add(x.exact, c.exact());
  verify(x, after);
  verify_canonical(x);
}

void merge(Total& x, Total const& o, bool minus, int how)
{
  Tracker k = tracker(*x.t);
  if (x.t->mixed)
  {
    R f = o.rep;
    if (minus) f.n = -f.n;
    R const s = k.add(x.rep, f);
    if (!k.ok) outside();
    fix(x, s, x.w + (minus ? -o.w : o.w));
  }
  else
  {
    R const r = minus ? k.sub(x.rep, o.rep) : k.add(x.rep, o.rep);
    if (!k.ok) outside();
    x.rep = r;
  }
  x.t->merge(x.v, o.v, minus, how);
  x.exact = minus ? model::sub(x.exact, o.exact) : model::add(x.exact, o.exact);
  verify(x, "merged");
}

// ---- the simulated cluster -----------------------------------------------------------
struct Message {
  uint64_t at;
  uint64_t order;
  int replica;
  int id;      // contribution, or acknowledgement when ack
  bool ack;
};

struct Replica {
  Total total;
  std::vector<int> log;       // ids in the order applied
  size_t durable = 0;         // the prefix that survives a crash
  std::vector<bool> seen;
  bool up = true;
  uint64_t back_at = 0;
  bool partitioned = false;
};

std::vector<Contribution> book;

void rebuild(Replica& r)
{
  std::vector<int> ids = r.log;
  for (size_t i = ids.size(); i > 1; --i) std::swap(ids[i - 1], ids[below(i)]);
  start(r.total, *r.total.t);
  size_t i = 0;
  while (i < ids.size())
  {
    size_t const group = 1 + below(4);
    if (group == 1)
      apply(r.total, book[size_t(ids[i++])], static_cast<int>(below(12)), "replayed");
    else
    { // a partial sum of its own
      Total part;
      start(part, *r.total.t);
      for (size_t k = 0; k < group && i < ids.size(); ++k, ++i)
        apply(part, book[size_t(ids[i])], static_cast<int>(below(12)), "grouped");
      merge(r.total, part, false, static_cast<int>(below(2)));
    }
  }
}

void run()
{
  fam = &family(below(8));
  bool const narrow = sim::chance(1, 3);
  bool const products = !fam->policy.lcm;
  bool const grows = !fam->policy.lcm && !fam->policy.reduce_in && !fam->policy.reduce_out; // fast
  unsigned const mean = sim::chance(1, 20) ? 120 : 12;
  int const replicas = static_cast<int>(2 + below(3));

  // ---- contributions
  static int const dens_small[] = {1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60};
  static int const dens_large[] = {1, 2, 3, 7, 8, 9, 16, 35, 63, 80, 144, 720, 1001, 1260, 5040, 720720};
  static int const dens_grow[] = {1, 1, 1, 2, 1, 1, 3, 1};
  i128 const magnitude = narrow ? 100 : sim::pick<i64>({10, 1000, 100000});
  book.clear();
  auto const part = [&](i128 m) {
    i128 const v = i128(below(static_cast<uint64_t>(m)));
    return below(2) ? -v : v;
  };
  bool const large = !narrow && below(2) && !grows;
  do
  {
    Contribution c;
    if (!book.empty() && sim::chance(1, 5))
    { // retraction of an earlier one
      c = book[below(book.size())];
      c.minus = !c.minus;
      sim::count("retractions");
    }
    else
    {
      c.minus = below(2);
      if (sim::chance(1, 6))
      {
        c.integer = true;
        c.k = static_cast<i64>(part(magnitude));
      }
      else
      {
        c.a.n = part(magnitude);
        c.a.d = grows ? dens_grow[below(8)] : large ? dens_large[below(products ? 14 : 16)] : dens_small[below(12)];
        if (below(4) == 0 && !grows)
        {
          i128 const f = 1 + i128(below(3));
          c.a.n *= f;
          c.a.d *= f;
        }
        if (below(4) == 0)
        {
          c.a.n = -c.a.n;
          c.a.d = -c.a.d;
        }
        if (sim::chance(1, 4))
        {
          c.scaling = static_cast<int>(1 + below(5));
          bool const division = c.scaling == 3 || c.scaling == 5;
          c.k = grows && division ? 1 : sim::pick<i64>({1, 2, 3, 4, 6, -1, -2, -5});
        }
      }
    }
    book.push_back(c);
  } while (sim::more(mean) && book.size() < (grows ? 30 : 400));
  Q exact {0, 1};
  for (auto const& c : book) exact = model::add(exact, c.exact());
  int const n = static_cast<int>(book.size());

  std::vector<Replica> node(static_cast<size_t>(replicas));
  for (auto& r : node)
  {
    start(r.total, fam->type[narrow ? 3 + below(3) : below(3)]);
    r.seen.assign(size_t(n), false);
  }
  sim::ev("cluster", fam->policy.name, narrow, n, replicas);

  // ---- network
  unsigned const loss = sim::pick({0u, 10u, 3u}), dup = sim::pick({0u, 10u, 3u});
  uint64_t const spread = sim::pick<uint64_t>({1, 10, 200});
  unsigned const crash = sim::pick({0u, 60u, 15u}), cut = sim::pick({0u, 60u, 20u});
  std::vector<Message> wire;
  std::vector<std::vector<bool>> acked(size_t(replicas), std::vector<bool>(size_t(n), false));
  uint64_t now = 0, order = 0, shape = 0;
  bool faults = true;
  auto const post = [&](int replica, int id, bool ack) {
    bool const isolated = node[size_t(replica)].partitioned;
    if (isolated)
    {
      sim::count("fault:message lost in a partition");
      return;
    }
    if (faults && loss && sim::chance(1, loss))
    {
      sim::count("fault:message lost");
      sim::nontrivial();
      return;
    }
    int copies = 1;
    if (faults && dup && sim::chance(1, dup))
    {
      ++copies;
      sim::count("fault:message duplicated");
      sim::nontrivial();
    }
    for (int i = 0; i < copies; ++i) wire.push_back({now + 1 + below(spread), order++, replica, id, ack});
  };
  auto const send_missing = [&] {
    for (int r = 0; r < replicas; ++r)
      for (int id = 0; id < n; ++id)
        if (!acked[size_t(r)][size_t(id)]) post(r, id, false);
  };
  auto const done = [&] {
    for (int r = 0; r < replicas; ++r)
      for (int id = 0; id < n; ++id)
        if (!acked[size_t(r)][size_t(id)]) return false;
    return true;
  };
  uint64_t last_order = 0;
  int rounds = 0;
  while (!done())
  {
    // the publisher (re)transmits, the network delivers until it is empty;
    // after a few rounds the faults stop and the next ones must finish
    if (++rounds > 6 && faults)
    {
      faults = false;
      for (auto& r : node) r.partitioned = false;
    }
    if (rounds > 9) sim::violation("no progress", "the replicas are not complete %d rounds after faults stopped", rounds - 6);
    for (auto& r : node)
      if (!r.up)
      {
        r.up = true;
        sim::ev("restart");
        rebuild(r);
      }
    if (faults && cut)
      for (auto& r : node)
        if (sim::chance(1, cut))
        {
          r.partitioned = !r.partitioned;
          if (r.partitioned) sim::count("fault:partition");
          sim::nontrivial();
        }
    send_missing();
    while (!wire.empty())
    {
      size_t best = 0;
      for (size_t i = 1; i < wire.size(); ++i)
        if (wire[i].at < wire[best].at || (wire[i].at == wire[best].at && wire[i].order < wire[best].order)) best = i;
      Message const m = wire[best];
      wire[best] = wire.back();
      wire.pop_back();
      sim::elapse((m.at - now) * 1000000);
      now = m.at;
      if (m.order < last_order)
      {
        sim::count("fault:message reordered");
        sim::nontrivial();
      }
      last_order = m.order;
      Replica& r = node[size_t(m.replica)];
      if (m.ack)
      {
        acked[size_t(m.replica)][size_t(m.id)] = true;
        continue;
      }
      if (!r.up)
      {
        sim::count("fault:message to a node that is down");
        continue;
      }
      shape = sim::mix(shape, uint64_t(m.replica) * 1000 + uint64_t(m.id));
      if (r.seen[size_t(m.id)])
      {
        post(m.replica, m.id, true); // suppressed, acknowledged again
        r.durable = r.log.size();
      }
      else
      {
        apply(r.total, book[size_t(m.id)], static_cast<int>(below(12)), "applied");
        r.seen[size_t(m.id)] = true;
        r.log.push_back(m.id);
        if (below(3) || !faults)
        { // the log is flushed, then everything in it acknowledged
          for (size_t i = r.durable; i < r.log.size(); ++i) post(m.replica, r.log[i], true);
          r.durable = r.log.size();
        }
      }
      if (faults && crash && sim::chance(1, crash))
      {
        sim::count("fault:crash");
        if (r.durable < r.log.size()) sim::count("fault:unflushed log entries lost", r.log.size() - r.durable);
        sim::nontrivial();
        r.log.resize(r.durable);
        r.seen.assign(size_t(n), false);
        for (int id : r.log) r.seen[size_t(id)] = true;
        shape = sim::mix(shape, 7);
        if (below(2))
        {
          sim::ev("crash and restart");
          rebuild(r);
        }
        else
          r.up = false;
      }
    }
  }
  for (auto& r : node)
    if (!r.up)
    {
      r.up = true;
      rebuild(r);
    }

  // ---- the totals
  std::vector<Value> common(node.size());
  for (size_t i = 0; i < node.size(); ++i)
  {
    Replica& r = node[i];
    Total const& x = r.total;
    if (!model::same(x.exact, exact)) sim::harness_error("a replica misses a contribution");
    verify(x, "final");
    verify_canonical(x);
    // as_fraction and the common type form their own terms
    if (x.t->mixed)
    {
      Tracker k {fam->policy, x.t->whole.max < x.t->limits.max ? x.t->limits : x.t->whole};
      if (!x.t->limits.fits(x.w * x.rep.d) || !k.l.fits(model::iabs(x.w * x.rep.d) + model::iabs(x.rep.n))) outside();
      k.ir(model::plus_, x.w, x.rep);
      if (!k.ok) outside();
      R const f = x.t->total(x.v);
      sim::judge();
      if (f.d == 0 || !model::same(f.q(), exact))
        sim::violation("inexact total", "%s, %s: as a fraction %s/%s instead of %s", fam->policy.name, x.t->name,
                       model::text(f.n).c_str(), model::text(f.d).c_str(), model::text(exact).c_str());
    }
    x.t->common(x.v, common[i]);
  }
  for (size_t i = 0; i < node.size(); ++i)
    for (size_t j = 0; j < node.size(); ++j)
    {
      R const a = node[i].total.t->total(node[i].total.v), b = node[j].total.t->total(node[j].total.v);
      if (!model::in_domain_cmp(fam->policy, {INT64_MAX, true}, a, b)) continue;
      sim::judge();
      if (!fam->equal(common[i], common[j]))
        sim::violation("replicas differ", "%s: totals %s/%s and %s/%s do not compare equal", fam->policy.name,
                       model::text(a.n).c_str(), model::text(a.d).c_str(), model::text(b.n).c_str(), model::text(b.d).c_str());
      if (fam->policy.reduce_out && !node[i].total.t->mixed && !node[j].total.t->mixed && (a.n != b.n || a.d != b.d))
        sim::violation("representations differ", "%s: %s/%s and %s/%s", fam->policy.name, model::text(a.n).c_str(),
                       model::text(a.d).c_str(), model::text(b.n).c_str(), model::text(b.d).c_str());
    }
  // ---- every contribution retracted, in yet another order
  Replica& r = node[below(node.size())];
  std::vector<int> ids = r.log;
  for (size_t i = ids.size(); i > 1; --i) std::swap(ids[i - 1], ids[below(i)]);
  for (int id : ids)
  {
    Contribution c = book[size_t(id)];
    c.minus = !c.minus;
    apply(r.total, c, static_cast<int>(below(12)), "retracted");
  }
  sim::judge();
  if (!r.total.t->is_zero(r.total.v))
    sim::violation("retraction", "%s, %s: retracting everything does not leave zero", fam->policy.name, r.total.t->name);
  sim::schedule(shape);
  sim::state(sim::mix(shape, exact.n < 0 ? 1 : 2));
}

} // namespace

namespace sim {
World const world = {
  "C02", run,
  "fraction and mixed_number arithmetic, comparison and conversion (8 policies x int64/int32)",
  "the network (loss, duplication, reordering, delay, partitions), the replicas' logs, node crashes",
  "a run delivers one set of contributions to 2-4 replicas and compares every intermediate and final total with "
  "the exact one; non-trivial when a message was lost, duplicated or reordered or a node crashed"};
}
