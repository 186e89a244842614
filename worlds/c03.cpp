// C03: a deduplicating, indexing consumer of events keyed by fractions. Events
// are redelivered, reordered and re-represented; the consumer crashes and
// rebuilds its indices from its log.
#include "policy.hpp"
#include "sim.hpp"
#include "tracked.hpp"

#include <algorithm>
#include <cstring>
#include <ieme/ieme.hpp>
#include <ieme/hash.hpp>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace {

using model::i128;
using model::i64;
using model::Limits;
using model::Q;
using model::R;
using model::Tracker;
using sim::below;

// How a key comes about from parts a (and helper parts b).
enum Making { direct, reread, sum, product, quotient, negated, reduced, converted, compound, makings };

struct Consumer {
  virtual ~Consumer() = default;
  virtual R make(R a, R b, int how) = 0; // builds the current key; returns its parts
  virtual bool insert() = 0;             // into every index; false: already there
  virtual bool erase() = 0;
  virtual void clear() = 0;
  virtual void rehash(size_t) = 0;
  virtual int where() = 0;               // bit per index that finds the current key
  virtual size_t size(int index) = 0;
  virtual void bump() = 0;               // counts an event of the current key
  virtual i64 hits(int index) = 0;
  virtual std::vector<R> in_order(int index) = 0;
  virtual std::vector<R> sorted() = 0;   // the keys of the hashed index, sorted
  virtual size_t below_key() = 0;        // keys of the ordered index before the current one
  virtual size_t below_int(i64) = 0;
  virtual size_t upto_int(i64) = 0;
  virtual i64 hash() = 0;
  virtual int compare(R) = 0;            // current key against parts
  virtual int compare_int(i64) = 0;
  virtual int int_compare(i64) = 0;
};
constexpr int indices = 4;

template <typename F>
auto in_lib(F&& f)
{
  sim::Lib guard;
  return f();
}
template <typename A, typename B>
int six_of(A const& a, B const& b)
{
  sim::Lib guard;
  return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5;
}

template <typename Rep, typename Ops>
struct ConsumerOf : Consumer {
  using F = ieme::fraction<Rep, Ops>;
  F key {};
  std::unordered_set<F> hashed;
  std::unordered_map<F, i64> counts;
  std::set<F> ordered;
  std::map<F, i64, std::greater<F>> descending;

  static F of(R r) { return F(static_cast<Rep>(r.n), static_cast<Rep>(r.d)); }
  static R parts(F const& f) { return {static_cast<i128>(f.num()), static_cast<i128>(f.den())}; }

  R make(R a, R b, int how) override
  {
    F const x = of(a), y = of(b);
    auto const ops = [&]() -> F {
      sim::Lib guard;
      switch (how)
      {
        case sum: return x + y;
        case product: return x * y;
        case quotient: return x / y;
        case negated: return -x;
        case reduced: return ieme::reduce(x);
        case converted: return F(ieme::fraction<i64, ieme::ops::fast>(x));
        case compound:
        {
          F z = x;
          z -= y;
          return z;
        }
        default: return x;
      }
    };
    if (how == reread)
    {
      std::stringstream ss;
      sim::Lib guard;
      ss << x;
      ss >> key;
    }
    else
      key = ops();
    return parts(key);
  }
  bool insert() override
  {
    sim::Lib guard;
    bool const a = hashed.insert(key).second, b = counts.emplace(key, 0).second, c = ordered.insert(key).second,
               d = descending.emplace(key, 0).second;
    if (a != b || b != c || c != d)
      sim::violation("indices disagree", "insertion of %s/%s: new to %d, %d, %d, %d of the four indices",
                     model::text(parts(key).n).c_str(), model::text(parts(key).d).c_str(), a, b, c, d);
    return a;
  }
  bool erase() override
  {
    sim::Lib guard;
    size_t const a = hashed.erase(key), b = counts.erase(key), c = ordered.erase(key), d = descending.erase(key);
    if (a != b || b != c || c != d)
      sim::violation("indices disagree", "erasure of %s/%s: found in %zu, %zu, %zu, %zu of the four indices",
                     model::text(parts(key).n).c_str(), model::text(parts(key).d).c_str(), a, b, c, d);
    return a == 1;
  }
  void clear() override
  {
    hashed.clear();
    counts.clear();
    ordered.clear();
    descending.clear();
  }
  void rehash(size_t n) override
  {
    sim::Lib guard;
    hashed.rehash(n);
    counts.rehash(n);
  }
  int where() override
  {
    sim::Lib guard;
    return (hashed.find(key) != hashed.end()) | (counts.find(key) != counts.end()) << 1
           | (ordered.find(key) != ordered.end()) << 2 | (descending.find(key) != descending.end()) << 3;
  }
  size_t size(int i) override
  {
    return i == 0 ? hashed.size() : i == 1 ? counts.size() : i == 2 ? ordered.size() : descending.size();
  }
  void bump() override
  {
    sim::Lib guard;
    ++counts[key];
    ++descending[key];
  }
  i64 hits(int i) override
  {
    sim::Lib guard;
    auto const a = counts.find(key);
    auto const b = descending.find(key);
    return i ? (b == descending.end() ? -1 : b->second) : (a == counts.end() ? -1 : a->second);
  }
  std::vector<R> in_order(int i) override
  {
    std::vector<R> v;
    if (i == 2)
      for (auto const& k : ordered) v.push_back(parts(k));
    else
      for (auto const& k : descending) v.push_back(parts(k.first));
    return v;
  }
  std::vector<R> sorted() override
  {
    // iteration order of the hashed index depends on the hash; start from the
    // exact order so that the decisions of the run do not
    std::vector<F> v(hashed.begin(), hashed.end());
    std::sort(v.begin(), v.end(), [](F const& a, F const& b) {
      return i128(a.num()) * b.den() * (i128(b.den()) < 0 ? -1 : 1) * (i128(a.den()) < 0 ? -1 : 1)
             > i128(b.num()) * a.den() * (i128(b.den()) < 0 ? -1 : 1) * (i128(a.den()) < 0 ? -1 : 1);
    });
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    {
      sim::Lib guard;
      std::sort(v.begin(), v.end());
    }
    std::vector<R> r;
    for (auto const& k : v) r.push_back(parts(k));
    return r;
  }
  size_t below_key() override
  {
    sim::Lib guard;
    return static_cast<size_t>(std::distance(ordered.begin(), ordered.lower_bound(key)));
  }
  size_t below_int(i64 i) override
  {
    sim::Lib guard;
    return static_cast<size_t>(std::count_if(ordered.begin(), ordered.end(), [&](F const& f) { return f < Rep(i); }));
  }
  size_t upto_int(i64 i) override
  {
    sim::Lib guard;
    return static_cast<size_t>(std::count_if(ordered.begin(), ordered.end(), [&](F const& f) { return Rep(i) >= f; }));
  }
  i64 hash() override
  {
    sim::Lib guard;
    return static_cast<i64>(std::hash<F>()(key));
  }
  int compare(R r) override { return six_of(key, of(r)); }
  int compare_int(i64 i) override { return six_of(key, static_cast<Rep>(i)); }
  int int_compare(i64 i) override { return six_of(static_cast<Rep>(i), key); }
};

struct Kind {
  char const* name;
  model::Policy policy;
  Limits limits;
  Consumer* (*create)();
};
template <typename Rep, typename Ops>
Kind kind(char const* name)
{
  return {name, policy_of<Ops>(), {static_cast<i128>(std::numeric_limits<Rep>::max()), std::is_signed_v<Rep>},
          []() -> Consumer* { return new ConsumerOf<Rep, Ops>(); }};
}
Kind const& kind_of(uint64_t i)
{
  using namespace ieme::ops;
  static Kind const all[] = {
    kind<i64, defaults>("int64"), kind<int, defaults>("int32"), kind<unsigned, defaults>("uint32"),
    kind<i64, safe>("int64"), kind<int, safe>("int32"),
    kind<i64, safe_reduced_i>("int64"), kind<int, safe_reduced_i>("int32"),
    kind<i64, safe_reduced_o>("int64"), kind<std::uint64_t, safe_reduced_o>("uint64"),
    kind<i64, fast>("int64"), kind<int, fast>("int32"), kind<unsigned, fast>("uint32"),
    kind<i64, fast_reduced_i>("int64"), kind<i64, fast_reduced_o>("int64"), kind<int, fast_reduced_o>("int32"),
    kind<i64, fast_reduced_io>("int64")};
  return all[i];
}
constexpr uint64_t kinds = 16;

struct Event {
  R a, b;
  int how;
  R key;   // the documented outcome
};

Consumer* c;
Kind const* kd;
std::vector<Q> values; // exact order
std::vector<i64> hits; // per value

size_t index_of(Q const& q)
{
  for (size_t i = 0; i < values.size(); ++i)
    if (model::same(values[i], q)) return i;
  return values.size();
}
bool less(Q const& a, Q const& b) { return model::cmp(a, b) < 0; }

void note(Q const& q, i64 n)
{
  size_t const i = index_of(q);
  if (i < values.size())
  {
    hits[i] += n;
    return;
  }
  size_t at = 0;
  while (at < values.size() && less(values[at], q)) ++at;
  values.insert(values.begin() + static_cast<long>(at), q);
  hits.insert(hits.begin() + static_cast<long>(at), n);
}

std::string show(R r) { return model::text(r.n) + "/" + model::text(r.d); }

void check_all()
{
  for (int i = 0; i < indices; ++i)
  {
    sim::judge();
    if (c->size(i) != values.size())
      sim::violation("count of keys", "%s<%s>: index %d holds %zu keys for %zu distinct values", kd->policy.name, kd->name, i,
                     c->size(i), values.size());
  }
  for (int i = 2; i < indices + 1; ++i)
  {
    std::vector<R> const got = i == indices ? c->sorted() : c->in_order(i);
    sim::judge();
    for (size_t k = 0; k < values.size(); ++k)
    {
      Q const want = i == 3 ? values[values.size() - 1 - k] : values[k];
      if (!model::same(got[k].q(), want))
        sim::violation("iteration order", "%s<%s>: position %zu of index %d holds %s instead of %s", kd->policy.name, kd->name,
                       k, i, show(got[k]).c_str(), model::text(want).c_str());
    }
  }
}

// One delivery: the consumer builds the key anew and looks it up.
R build(Event const& e)
{
  R const r = c->make(e.a, e.b, e.how);
  sim::judge();
  if (r.d == 0 || !model::same(r.q(), e.key.q()))
    sim::violation("inexact key", "%s<%s>: making %d of %s and %s gave %s instead of %s", kd->policy.name, kd->name, e.how,
                   show(e.a).c_str(), show(e.b).c_str(), show(r).c_str(), show(e.key).c_str());
  return r;
}

void deliver(Event const& e)
{
  R const r = build(e);
  Q const q = e.key.q();
  bool const known = index_of(q) < values.size();
  sim::judge();
  int const found = c->where();
  if (found != (known ? 15 : 0))
    sim::violation("lookup", "%s<%s>: %s, which is %s, is %s but found by the indices %#x", kd->policy.name, kd->name,
                   show(r).c_str(), model::text(q).c_str(), known ? "present" : "absent", found);
  bool const fresh = c->insert();
  if (fresh == known)
    sim::violation("deduplication", "%s<%s>: %s, which is %s, was %s", kd->policy.name, kd->name, show(r).c_str(),
                   model::text(q).c_str(), fresh ? "taken for new" : "taken for a duplicate");
  c->bump();
  note(q, 1);
  size_t const i = index_of(q);
  if (c->hits(0) != hits[i] || c->hits(1) != hits[i])
    sim::violation("count of events", "%s<%s>: %s was counted %lld/%lld times instead of %lld", kd->policy.name, kd->name,
                   model::text(q).c_str(), static_cast<long long>(c->hits(0)), static_cast<long long>(c->hits(1)),
                   static_cast<long long>(hits[i]));
  if (c->below_key() != i)
    sim::violation("position", "%s<%s>: %s is found at position %zu instead of %zu", kd->policy.name, kd->name,
                   show(r).c_str(), c->below_key(), i);
  sim::ev("delivered", e.how, int64_t(r.n), int64_t(r.d), fresh, i);
}

void run()
{
  kd = &kind_of(below(kinds));
  Limits const& l = kd->limits;
  c = kd->create();
  values.clear();
  hits.clear();
  unsigned bits = 0;
  while ((l.max >> bits) > 0) ++bits;
  unsigned const scale = static_cast<unsigned>(1 + below(sim::chance(1, 4) ? bits : bits / 2));
  sim::ev("consumer", kd->policy.name, kd->name, scale);

  // ---- the events of this run: several representations of a few values
  auto const number = [&]() -> i128 {
    if (below(2)) return i128(below(uint64_t(1) << (scale < 4 ? scale : 4)));
    i128 v = i128(below(uint64_t(1) << (scale > 62 ? 62 : scale)));
    if (sim::chance(1, 5) && scale + 1 >= bits) v = l.max - i128(below(3));
    return v > l.max ? l.max : v;
  };
  auto const gen = [&] {
    R r {number(), number()};
    if (r.d == 0) r.d = 1;
    if (l.is_signed)
    {
      uint64_t const s = below(4);
      if (s & 1) r.n = -r.n;
      if (s & 2) r.d = -r.d;
    }
    return r;
  };
  std::vector<Event> pool;
  std::vector<i64> ints;
  size_t const want = 1 + below(sim::chance(1, 10) ? 120 : 14);
  for (size_t tries = 0; pool.size() < want && tries < want * 4; ++tries)
  {
    Event e {};
    e.how = static_cast<int>(below(makings));
    e.b = gen();
    if (pool.empty() || below(3) == 0) e.a = gen();
    else
    { // close to an earlier key
      R const k = pool[below(pool.size())].key;
      i128 const f = 1 + i128(below(7));
      i128 const far = i128(1) << below(bits);
      switch (below(8))
      {
        case 4: e.a = {k.n, k.d + far}; break;
        case 5: e.a = {k.n + far, k.d}; break;
        case 0: e.a = {k.n + i128(below(3)) - 1, k.d}; break;
        case 1: e.a = {k.n, k.d + i128(below(3)) - 1}; break;
        case 2: e.a = {-k.n, k.d}; break;
        case 3: e.a = {-k.n * f, -k.d * f}; break;
        default: e.a = {k.n * f, k.d * f}; break;
      }
      // make the sums and products land there as well
      if (e.how == sum || e.how == product || e.how == quotient || e.how == compound)
      {
        Q const y = e.b.q(), q = e.a.d ? e.a.q() : Q {};
        Q x = q;
        if (e.how == sum) x = model::sub(q, y);
        if (e.how == compound) x = model::add(q, y);
        if (e.how == product) x = y.n == 0 ? q : model::div(q, y);
        if (e.how == quotient) x = model::mul(q, y);
        e.a = {x.n, x.d};
      }
      if (e.how == negated) e.a.n = -e.a.n;
    }
    if (e.a.d == 0 || !l.fits(e.a.n) || !l.fits(e.a.d)) continue;
    Tracker t {kd->policy, l};
    switch (e.how)
    {
      case sum: e.key = t.add(e.a, e.b); break;
      case compound: e.key = t.sub(e.a, e.b); break;
      case product: e.key = t.mul(e.a, e.b); break;
      case quotient:
        if (e.b.n == 0) continue;
        e.key = t.div(e.a, e.b);
        break;
      case negated:
        if (!l.is_signed && e.a.n != 0) continue;
        e.key = {-e.a.n, e.a.d};
        if (kd->policy.reduce_out) { Q const q = e.key.q(); e.key = {q.n, q.d}; }
        break;
      case reduced: { Q const q = e.a.q(); e.key = {q.n, q.d}; break; }
      case converted:
        if (l.max > INT64_MAX && (e.a.n > INT64_MAX || e.a.d > INT64_MAX)) continue;
        e.key = e.a;
        break;
      default: e.key = e.a;
    }
    if (!t.ok || e.key.d == 0) continue;
    bool fits = model::in_domain_cmp(kd->policy, l, e.key, e.key);
    for (auto const& o : pool)
      fits = fits && model::in_domain_cmp(kd->policy, l, e.key, o.key) && model::in_domain_cmp(kd->policy, l, o.key, e.key);
    if (fits) pool.push_back(e);
  }
  if (pool.empty()) sim::discard("no comparable keys");
  for (int i = 0; i < 3; ++i)
  {
    i128 const v = below(2) ? model::qfloor(pool[below(pool.size())].key.q()) + i128(below(3)) - 1 : i128(below(5));
    if (!l.fits(v) || v > INT64_MAX) continue;
    bool fits = true;
    for (auto const& o : pool) fits = fits && model::in_domain_cmp_int(kd->policy, l, o.key, v);
    if (fits) ints.push_back(static_cast<i64>(v));
  }

  // ---- deliveries
  std::vector<size_t> log; // durable
  unsigned const mean = static_cast<unsigned>(2 * pool.size());
  std::vector<size_t> in_flight;
  uint64_t shape = 0;
  for (size_t i = 0; i < pool.size(); ++i)
  {
    in_flight.push_back(i);
    while (sim::chance(1, 3))
    {
      in_flight.push_back(i);
      sim::count("fault:redelivery");
      sim::nontrivial();
    }
  }
  unsigned actions = 0;
  while (!in_flight.empty())
  {
    size_t const at = below(in_flight.size());
    if (at) sim::count("fault:reordered delivery");
    size_t const id = in_flight[at];
    in_flight[at] = in_flight.front();
    in_flight.erase(in_flight.begin());
    Event const& e = pool[id];
    shape = sim::mix(shape, id);
    deliver(e);
    log.push_back(id);
    sim::elapse(1000000);
    if (++actions > mean * 4) continue;
    // ---- queries against other representations of other keys
    Event const& o = pool[below(pool.size())];
    build(e);
    sim::judge();
    int const got = c->compare(o.key), expected = model::six(e.key.q(), o.key.q());
    if (got != expected)
      sim::violation("order", "%s<%s>: %s and %s compare as %#x instead of %#x", kd->policy.name, kd->name, show(e.key).c_str(),
                     show(o.key).c_str(), got, expected);
    i64 const h = c->hash();
    for (auto const& other : pool)
      if (model::same(other.key.q(), e.key.q()) && below(4) == 0)
      {
        build(other);
        sim::judge();
        if (c->hash() != h)
          sim::violation("hash", "%s<%s>: %s and %s are equal but their hashes differ", kd->policy.name, kd->name,
                         show(e.key).c_str(), show(other.key).c_str());
      }
    if (!ints.empty())
    {
      build(e);
      i64 const i = ints[below(ints.size())];
      sim::judge();
      int const w = model::six(e.key.q(), {i, 1}), w2 = model::six({i, 1}, e.key.q());
      int const g = c->compare_int(i), g2 = c->int_compare(i);
      if (g != w || g2 != w2)
        sim::violation("order against integers", "%s<%s>: %s and %lld compare as %#x/%#x instead of %#x/%#x", kd->policy.name,
                       kd->name, show(e.key).c_str(), static_cast<long long>(i), g, g2, w, w2);
      size_t n = 0, m = 0;
      for (auto const& q : values)
      {
        n += model::cmp(q, {i, 1}) < 0;
        m += model::cmp(q, {i, 1}) <= 0;
      }
      sim::judge();
      if (c->below_int(i) != n || c->upto_int(i) != m)
        sim::violation("order against integers", "%s<%s>: %zu keys below %lld instead of %zu, %zu at or below it instead of %zu",
                       kd->policy.name, kd->name, c->below_int(i), static_cast<long long>(i), n, c->upto_int(i), m);
    }
    switch (below(12))
    {
      case 0: // retention: one key is dropped, by any of its representations
      {
        build(o);
        bool const there = index_of(o.key.q()) < values.size();
        sim::judge();
        if (c->erase() != there)
          sim::violation("lookup", "%s<%s>: erasing %s, which is %s", kd->policy.name, kd->name, show(o.key).c_str(),
                         there ? "present" : "absent");
        if (there)
        {
          size_t const k = index_of(o.key.q());
          values.erase(values.begin() + static_cast<long>(k));
          hits.erase(hits.begin() + static_cast<long>(k));
        }
        std::erase_if(log, [&](size_t x) { return model::same(pool[x].key.q(), o.key.q()); });
        sim::ev("erased", there);
        break;
      }
      case 1: // crash: the indices are rebuilt from the log in another order
      {
        sim::count("fault:crash");
        sim::nontrivial();
        c->clear();
        values.clear();
        hits.clear();
        if (below(2)) c->rehash(below(200));
        for (size_t k = log.size(); k > 1; --k) std::swap(log[k - 1], log[below(k)]);
        for (size_t x : log) deliver(pool[x]);
        sim::ev("rebuilt", log.size());
        check_all();
        break;
      }
      case 2: c->rehash(1 + below(300)); break;
      default: break;
    }
  }
  check_all();
  for (auto const& e : pool)
  {
    build(e);
    bool const there = index_of(e.key.q()) < values.size();
    sim::judge();
    if (c->where() != (there ? 15 : 0))
      sim::violation("lookup", "%s<%s>: %s is not where it should be", kd->policy.name, kd->name, show(e.key).c_str());
  }
  sim::schedule(shape);
  sim::state(sim::mix(values.size(), shape));
  delete c;
}

} // namespace

namespace sim {
World const world = {
  "C03", run,
  "hashing, equality and ordering of fractions (8 policies x int32/int64/uint32/uint64), the arithmetic and text round "
  "trips that produce the keys, std::unordered_set/map, std::set/map",
  "the delivery of events (redelivery, reordering) and the consumer's log across crashes",
  "a run delivers events whose keys are built in 9 ways to a consumer with four indices; non-trivial when an event "
  "was redelivered or the consumer crashed and rebuilt its indices"};
}
