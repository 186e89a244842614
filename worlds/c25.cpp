// C25: values are plain bytes. Processes with private memory images that are
// moved, killed and restored from byte images update shared values with
// compare-and-swap of their bytes and send each other bytes in pieces.
#include "policy.hpp"
#include "sim.hpp"
#include "tracked.hpp"

#include <algorithm>
#include <cstring>
#include <ieme/ieme.hpp>
#include <new>
#include <vector>

namespace {

using model::i128;
using model::i64;
using model::Limits;
using model::Q;
using model::R;
using model::Tracker;
using sim::below;

constexpr size_t object_max = 256; // bytes of one object, whatever it has become
constexpr int nregs = 4;

using Bytes = unsigned char*;
using CBytes = unsigned char const*;

enum Op : int { add_, sub_, mul_, div_, cadd_, csub_, cmul_, cdiv_, addi_, muli_, copy_, reduce_, abs_, neg_, recip_, ops_n };
char const* const op_name[] = {"+", "-", "*", "/", "+=", "-=", "*=", "/=", "+int", "*int", "copy",
                               "reduce", "abs", "negate", "reciprocal"};
static_assert(sizeof op_name / sizeof *op_name == ops_n);

struct Parts {
  i128 whole = 0;
  R r;
  Q q() const { return model::add(r.q(), {whole, 1}); }
};

struct Type {
  char const* name = nullptr;
  model::Policy policy;
  Limits limits;
  bool mixed = false;
  size_t size = 0, align = 0, ideal = 0; // ideal: the integer parts and nothing else
  // Every function takes objects by the address of their bytes.
  void (*make)(Bytes, Parts const&);
  Parts (*parts)(CBytes);
  bool (*does)(int op);
  void (*apply)(Bytes to, Bytes a, CBytes b, int op, i64 k);   // compound operators modify a and copy it
  void (*copy)(Bytes to, CBytes from, int how);                // ways the language copies a value
  bool (*equal)(CBytes, CBytes);
  bool (*hash_equal)(CBytes, CBytes);
  void (*reorder)(Bytes array, int n, int how, int k);         // std algorithms over T[n]
};

template <typename T>
T& as(Bytes b) { return *std::launder(reinterpret_cast<T*>(b)); }
template <typename T>
T const& as(CBytes b) { return *std::launder(reinterpret_cast<T const*>(b)); }

// How each kind of value is made of its parts.
template <typename T>
struct Kind;
template <typename Rep_, typename Ops_>
struct Kind<ieme::fraction<Rep_, Ops_>> {
  using T = ieme::fraction<Rep_, Ops_>;
  using Rep = Rep_;
  using Ops = Ops_;
  static constexpr bool mixed = false, span = false;
  static constexpr size_t ideal = 2 * sizeof(Rep);
  static T make(Parts const& p) { return T(static_cast<Rep>(p.r.n), static_cast<Rep>(p.r.d)); }
  static Parts parts(T const& v) { return {0, {static_cast<i128>(v.num()), static_cast<i128>(v.den())}}; }
};
template <typename Rep_>
struct Kind<ieme::raw_fraction<Rep_>> {
  using T = ieme::raw_fraction<Rep_>;
  using Rep = Rep_;
  using Ops = ieme::ops::fast;
  static constexpr bool mixed = false, span = false;
  static constexpr size_t ideal = 2 * sizeof(Rep);
  static T make(Parts const& p) { return T(static_cast<Rep>(p.r.n), static_cast<Rep>(p.r.d)); }
  static Parts parts(T const& v) { return {0, {static_cast<i128>(v.numerator), static_cast<i128>(v.denominator)}}; }
};
template <typename Rep_, typename Ops_>
struct Kind<ieme::mixed_number<Rep_, Rep_, Ops_>> {
  using T = ieme::mixed_number<Rep_, Rep_, Ops_>;
  using Rep = Rep_;
  using Ops = Ops_;
  static constexpr bool mixed = true, span = false;
  static constexpr size_t ideal = 3 * sizeof(Rep);
  static T make(Parts const& p)
  {
    return T(static_cast<Rep>(p.whole), ieme::fraction<Rep, Ops>(static_cast<Rep>(p.r.n), static_cast<Rep>(p.r.d)));
  }
  static Parts parts(T const& v)
  {
    return {static_cast<i128>(v.whole()),
            {static_cast<i128>(v.fractional().num()), static_cast<i128>(v.fractional().den())}};
  }
};
template <typename Rep_, typename Ops_, typename Period>
struct Kind<std::chrono::duration<ieme::fraction<Rep_, Ops_>, Period>> {
  using F = ieme::fraction<Rep_, Ops_>;
  using T = std::chrono::duration<F, Period>;
  using Rep = Rep_;
  using Ops = Ops_;
  static constexpr bool mixed = false, span = true;
  static constexpr size_t ideal = 2 * sizeof(Rep);
  static T make(Parts const& p) { return T(F(static_cast<Rep>(p.r.n), static_cast<Rep>(p.r.d))); }
  static Parts parts(T const& v)
  {
    return {0, {static_cast<i128>(v.count().num()), static_cast<i128>(v.count().den())}};
  }
};

template <typename T>
constexpr bool is_raw = false;
template <typename Rep>
constexpr bool is_raw<ieme::raw_fraction<Rep>> = true;

template <typename T>
struct Impl {
  using K = Kind<T>;
  using Rep = typename K::Rep;
  static constexpr bool fractional = !K::mixed && !K::span && !is_raw<T>;

  static bool does(int op)
  {
    switch (op)
    {
      case copy_: return true;
      case add_: return !is_raw<T>;
      case sub_: case cadd_: case csub_: return !is_raw<T> && !K::mixed;
      case addi_: return fractional || K::mixed;
      case mul_: case div_: case cmul_: case cdiv_: case muli_: case recip_: return fractional;
      case abs_: return fractional;
      case reduce_: return fractional || is_raw<T>;
      case neg_: return std::is_signed_v<Rep> && !is_raw<T>;
    }
    return false;
  }
  static void apply(Bytes to, Bytes pa, CBytes pb, int op, i64 k)
  {
    T& a = as<T>(pa);
    T const& b = as<T>(pb);
    auto const i = static_cast<Rep>(k);
    (void)i;
    (void)b;
    void* const p = to;
    sim::Lib guard;
    if (op == copy_)
    {
      ::new (p) T(a);
      return;
    }
    if constexpr (is_raw<T>) ::new (p) T(ieme::reduce(a));
    else if constexpr (K::mixed)
      switch (op)
      {
        case add_: ::new (p) T(a + b); break;
        case addi_: ::new (p) T(a + i); break;
        default:
          if constexpr (std::is_signed_v<Rep>) ::new (p) T(-a);
      }
    else
      switch (op)
      {
        case add_: ::new (p) T(a + b); break;
        case sub_: ::new (p) T(a - b); break;
        case cadd_: a += b; ::new (p) T(a); break;
        case csub_: a -= b; ::new (p) T(a); break;
        case neg_:
          if constexpr (std::is_signed_v<Rep>) ::new (p) T(-a);
          break;
        default:
          if constexpr (!K::span)
            switch (op)
            {
              case mul_: ::new (p) T(a * b); break;
              case div_: ::new (p) T(a / b); break;
              case cmul_: a *= b; ::new (p) T(a); break;
              case cdiv_: a /= b; ::new (p) T(a); break;
              case addi_: ::new (p) T(a + i); break;
              case muli_: ::new (p) T(i * a); break;
              case reduce_: ::new (p) T(ieme::reduce(a)); break;
              case abs_: ::new (p) T(ieme::abs(a)); break;
              default: ::new (p) T(ieme::reciprocal(a));
            }
      }
  }
  static void copy(Bytes to, CBytes from, int how)
  {
    T const& s = as<T>(from);
    void* const p = to;
    sim::Lib guard;
    switch (how)
    {
      case 0: ::new (p) T(s); break;
      case 1: (::new (p) T())->operator=(s); break;
      case 2: { T t(s); ::new (p) T(std::move(t)); break; }
      case 3: { T t(s); T& d = *::new (p) T(); d = std::move(t); break; }
      case 4: { T t(s); T& d = *::new (p) T(); std::swap(t, d); break; }
      case 5: { T& d = *::new (p) T(s); T const& same = d; d = same; break; }
      // part by part through the references the value hands out
      case 6:
        if constexpr (fractional)
        {
          T& d = *::new (p) T(ieme::reduce(s));
          d.num() = s.num();
          d.denominator() = s.den();
          break;
        }
        [[fallthrough]];
      default:
        if constexpr (fractional)
        {
          T& d = *::new (p) T(ieme::reduce(s));
          d.raw() = s.raw();
        }
        else ::new (p) T(s);
    }
  }
  static bool equal(CBytes a, CBytes b)
  {
    if constexpr (K::mixed)
    {
      auto const x = as<T>(a).as_fraction(), y = as<T>(b).as_fraction();
      return x == y;
    }
    else if constexpr (is_raw<T>)
      return ieme::fraction<Rep, typename K::Ops>(as<T>(a)) == ieme::fraction<Rep, typename K::Ops>(as<T>(b));
    else
      return as<T>(a) == as<T>(b);
  }
  static bool hash_equal(CBytes a, CBytes b)
  {
    if constexpr (fractional)
    {
      sim::Lib guard;
      std::hash<T> const h {};
      return h(as<T>(a)) == h(as<T>(b));
    }
    return true;
  }
  static void reorder(Bytes array, int n, int how, int k)
  {
    T* const p = std::launder(reinterpret_cast<T*>(array));
    sim::Lib guard;
    switch (how)
    {
      case 0:
        if constexpr (fractional || K::span)
        {
          std::sort(p, p + n);
          break;
        }
        [[fallthrough]];
      case 1: std::reverse(p, p + n); break;
      case 2: std::rotate(p, p + k, p + n); break;
      default: std::swap(p[k], p[(k + 1) % n]);
    }
  }
  static Type type(char const* name)
  {
    Type t;
    t.name = name;
    t.policy = policy_of<typename K::Ops>();
    t.limits = {static_cast<i128>(std::numeric_limits<Rep>::max()), std::is_signed_v<Rep>};
    t.mixed = K::mixed;
    t.size = sizeof(T);
    t.align = alignof(T);
    t.ideal = K::ideal;
    t.make = [](Bytes to, Parts const& p) {
      void* const at = to;
      sim::Lib guard;
      ::new (at) T(K::make(p));
    };
    t.parts = [](CBytes b) { return K::parts(as<T>(b)); };
    t.does = does;
    t.apply = apply;
    t.copy = copy;
    t.equal = [](CBytes a, CBytes b) {
      sim::Lib guard;
      return equal(a, b);
    };
    t.hash_equal = hash_equal;
    t.reorder = reorder;
    return t;
  }
};

template <typename Ops>
void family(std::vector<Type>& all)
{
  using namespace ieme;
  all.push_back(Impl<fraction<int, Ops>>::type("fraction<int>"));
  all.push_back(Impl<fraction<i64, Ops>>::type("fraction<int64>"));
  all.push_back(Impl<fraction<unsigned, Ops>>::type("fraction<unsigned>"));
  all.push_back(Impl<std::chrono::duration<fraction<i64, Ops>, std::ratio<1, 3>>>::type("duration<fraction<int64>>"));
  // (unreduced products of denominators outgrow a mixed number at once)
  if (!std::is_same_v<Ops, ops::fast>)
  {
    all.push_back(Impl<mixed_number<i64, i64, Ops>>::type("mixed_number<int64>"));
    all.push_back(Impl<mixed_number<int, int, Ops>>::type("mixed_number<int>"));
  }
}

std::vector<Type> const& types()
{
  static std::vector<Type> const all = [] {
    std::vector<Type> t;
    using namespace ieme::ops;
    family<safe>(t);
    family<safe_reduced_io>(t);
    family<safe_reduced_i>(t);
    family<safe_reduced_o>(t);
    family<fast>(t);
    family<fast_reduced_o>(t);
    family<fast_reduced_i>(t);
    family<fast_reduced_io>(t);
    t.push_back(Impl<ieme::raw_fraction<int>>::type("raw_fraction<int>"));
    t.push_back(Impl<ieme::raw_fraction<i64>>::type("raw_fraction<int64>"));
    return t;
  }();
  return all;
}

// ---- the system -------------------------------------------------------------------

Type const* ty;

struct Message {
  int to = 0, reg = 0;
  unsigned char bytes[object_max];
  Q value;
  std::vector<std::pair<size_t, size_t>> pieces; // still to come
  unsigned char got[object_max];
  bool dead = false;
};

constexpr int nslots = 2, nproc_max = 4, places = 3;

struct Process {
  // the image is at one of several addresses
  int place = 0;
  Q model[nregs];
  // a durable image
  unsigned char disk[nregs * object_max];
  Q disk_model[nregs];
  // the update under way
  bool updating = false;
  int slot = 0;
  uint64_t version = 0;
  alignas(16) unsigned char expected[object_max];
  alignas(16) unsigned char desired[object_max];
  Q desired_value;
  Parts expected_parts;
};

alignas(64) unsigned char memory[nproc_max][places][nregs * object_max + 64];
alignas(64) unsigned char shared[nslots][object_max];
alignas(64) unsigned char scratch[4][object_max];
Process proc[nproc_max];
Q slot_model[nslots];
uint64_t slot_version[nslots];
int nproc;
uint64_t history;

Bytes reg(int p, int r) { return memory[p][proc[p].place] + size_t(r) * ty->size; }

Bytes garbage(int which)
{
  std::memset(scratch[which], sim::pick({0x00, 0xff, 0x5a}), sizeof scratch[which]);
  return scratch[which];
}

Parts gen()
{
  Parts p;
  unsigned const big = sim::chance(1, 6) && !ty->mixed ? 20000 : 40;
  p.r.n = static_cast<i128>(below(big));
  if (ty->limits.is_signed && below(2)) p.r.n = -p.r.n;
  if (ty->mixed)
  {
    p.r.d = sim::pick({1, 2, 3, 4, 5, 6, 10, 12});
    p.r.n %= p.r.d;
    p.whole = static_cast<i128>(below(50));
    if (p.r.n < 0 || (p.r.n == 0 && below(2))) p.whole = -p.whole;
  }
  else
  {
    p.r.d = static_cast<i128>(1 + below(big));
    if (ty->limits.is_signed && sim::chance(1, 4)) p.r.d = -p.r.d;
  }
  return p;
}

std::string text(Parts const& p)
{
  return (ty->mixed ? model::text(p.whole) + " + " : "") + model::text(p.r.n) + "/" + model::text(p.r.d);
}

// The bytes hold exactly the value, and nothing but its parts.
void verify(CBytes at, Q const& want, char const* what)
{
  sim::judge();
  Parts const p = ty->parts(at);
  if (p.r.d == 0 || !model::same(p.q(), want))
    sim::violation("value changed", "%s, %s: %s holds %s instead of %s", ty->policy.name, ty->name, what, text(p).c_str(),
                   model::text(want).c_str());
  Bytes const fresh = garbage(3);
  ty->make(fresh, p);
  if (std::memcmp(fresh, at, ty->size) != 0)
    sim::violation("more than its parts", "%s, %s: %s holds %s, but not the bytes of a new value of these parts",
                   ty->policy.name, ty->name, what, text(p).c_str());
}

bool comparable(Parts const& a, Parts const& b)
{
  Tracker k {ty->policy, ty->limits};
  if (ty->mixed) return true;
  k.cmp(a.r, b.r);
  return k.ok;
}

// Does the operation stay in the range of the type, and what is its value?
bool expected(int op, Parts const& a, Parts const& b, i64 i, Q& q)
{
  Tracker k {ty->policy, ty->limits};
  Q const x = a.q(), y = b.q();
  if (a.r.d == 0 || b.r.d == 0) return false;
  if (ty->mixed)
  {
    // (small enough by construction: see gen)
    q = op == add_ ? model::add(x, y) : op == addi_ ? model::add(x, {i, 1}) : op == neg_ ? model::neg(x) : x;
    return model::iabs(a.whole) < 100000 && model::iabs(b.whole) < 100000 && model::iabs(a.r.d) <= 3600
           && model::iabs(b.r.d) <= 3600;
  }
  R r = a.r;
  switch (op)
  {
    case add_: case cadd_: r = k.add(a.r, b.r); q = model::add(x, y); break;
    case sub_: case csub_: r = k.sub(a.r, b.r); q = model::sub(x, y); break;
    case mul_: case cmul_: r = k.mul(a.r, b.r); q = model::mul(x, y); break;
    case div_: case cdiv_:
      if (y.n == 0) return false;
      r = k.div(a.r, b.r);
      q = model::div(x, y);
      break;
    case addi_: r = k.ri(model::plus_, a.r, i); q = model::add(x, {i, 1}); break;
    case muli_: r = k.ir(model::times_, i, a.r); q = model::mul(x, {i, 1}); break;
    case recip_:
      if (x.n == 0) return false;
      q = model::div({1, 1}, x);
      break;
    case abs_: q = {model::iabs(x.n), x.d}; break;
    case neg_: q = model::neg(x); break;
    default: q = x;
  }
  return k.ok && k.l.fits(r.n) && k.l.fits(r.d);
}

int gen_op()
{
  for (int tries = 0; tries < 8; ++tries)
  {
    int const op = static_cast<int>(below(ops_n));
    if (ty->does(op)) return op;
  }
  return copy_;
}
i64 gen_int() { return ty->limits.is_signed ? sim::range(-9, 9) : static_cast<i64>(below(10)); }

void fresh_register(int p, int r)
{
  Parts const v = gen();
  ty->make(reg(p, r), v);
  proc[p].model[r] = v.q();
}

// ---- what a process does ----------------------------------------------------------

void local(int p)
{
  int const d = int(below(nregs)), a = int(below(nregs)), b = int(below(nregs)), op = gen_op();
  i64 const i = gen_int();
  Process& me = proc[p];
  Parts const x = ty->parts(reg(p, a)), y = ty->parts(reg(p, b));
  Q q;
  sim::ev("local", p, op_name[op], d, a, b, i);
  if (!expected(op, x, y, i, q))
  {
    fresh_register(p, d);
    sim::ev("renewed", text(ty->parts(reg(p, d))));
    return;
  }
  Bytes const out = garbage(0);
  ty->apply(out, reg(p, a), reg(p, b), op, i); // (a and b may be the same object)
  if (op >= cadd_ && op <= cdiv_) me.model[a] = q;
  verify(out, q, op_name[op]);
  verify(reg(p, a), me.model[a], "the operand");
  verify(reg(p, b), me.model[b], "the other operand");
  if (below(2)) ty->copy(reg(p, d), out, int(below(8)));
  else std::memcpy(reg(p, d), out, ty->size);
  me.model[d] = q;
  verify(reg(p, d), q, "a copy of the result");
  if (comparable(ty->parts(out), ty->parts(reg(p, d))) && (!ty->equal(out, reg(p, d)) || !ty->hash_equal(out, reg(p, d))))
    sim::violation("copy differs", "%s, %s: a copy of %s is not equal to it", ty->policy.name, ty->name,
                   text(ty->parts(out)).c_str());
  history = sim::mix(history, uint64_t(op));
}

void reorder(int p)
{
  int const how = int(below(4)), k = int(below(nregs));
  Process& me = proc[p];
  if (how == 0)
    for (int i = 0; i < nregs; ++i)
      for (int j = 0; j < i; ++j)
        if (!comparable(ty->parts(reg(p, i)), ty->parts(reg(p, j)))) return;
  sim::ev("reorder", p, how, k);
  sim::count("arrays sorted, reversed, rotated or swapped");
  ty->reorder(reg(p, 0), nregs, how, k);
  bool const sorts = how == 0 && !ty->mixed && ty->does(add_);
  if (sorts)
    std::stable_sort(me.model, me.model + nregs, [](Q const& a, Q const& b) { return model::cmp(a, b) < 0; });
  else if (how <= 1) std::reverse(me.model, me.model + nregs);
  else if (how == 2) std::rotate(me.model, me.model + k, me.model + nregs);
  else std::swap(me.model[k], me.model[(k + 1) % nregs]);
  for (int r = 0; r < nregs; ++r) verify(reg(p, r), me.model[r], "an element of the array");
}

// The whole image goes to another address; what was there is overwritten.
void move_image(int p, char const* why)
{
  Process& me = proc[p];
  int const to = (me.place + 1 + int(below(places - 1))) % places;
  sim::ev(why, p, to);
  std::memcpy(memory[p][to], memory[p][me.place], nregs * ty->size);
  std::memset(memory[p][me.place], sim::pick({0xff, 0x00, 0x5a}), sizeof memory[p][me.place]);
  me.place = to;
  sim::count("fault:memory image moved to another address");
  sim::nontrivial();
  history = sim::mix(history, 77);
}

void checkpoint(int p)
{
  Process& me = proc[p];
  sim::ev("checkpoint", p);
  if (sim::chance(1, 4))
  {
    // the write is torn; the checksum tells, and the image before stays
    sim::count("fault:torn image dropped");
    return;
  }
  std::memcpy(me.disk, reg(p, 0), nregs * ty->size);
  std::copy(me.model, me.model + nregs, me.disk_model);
}

void crash(int p, std::vector<Message>& net)
{
  Process& me = proc[p];
  sim::ev("crash", p);
  sim::count("fault:process killed and restored from its image");
  if (me.updating) sim::count("probe:killed between load and compare-and-swap");
  sim::nontrivial();
  me.updating = false;
  std::memset(memory[p][me.place], 0xee, sizeof memory[p][me.place]);
  me.place = int(below(places));
  std::memcpy(memory[p][me.place], me.disk, nregs * ty->size);
  std::copy(me.disk_model, me.disk_model + nregs, me.model);
  for (auto& m : net)
    if (m.to == p) m.dead = true;
  for (int r = 0; r < nregs; ++r) verify(reg(p, r), me.model[r], "a restored register");
  history = sim::mix(history, 78);
}

// load, compute, and (later) compare-and-swap
void begin_update(int p)
{
  Process& me = proc[p];
  me.slot = int(below(nslots));
  me.version = slot_version[me.slot];
  CBytes const now = shared[me.slot];
  Parts const x = ty->parts(now);
  int const how = int(below(11)), op = gen_op(), b = int(below(nregs));
  i64 const i = gen_int();
  sim::ev("update", p, me.slot, op_name[op], b, i, how);
  std::memset(me.expected, sim::pick({0x00, 0xff, 0x5a}), sizeof me.expected);
  if (how < 2) std::memcpy(me.expected, now, ty->size);
  else if (how < 10) ty->copy(me.expected, now, how - 2);
  else ty->make(me.expected, x);
  me.expected_parts = x;
  Parts const y = ty->parts(reg(p, b));
  Bytes const operand = garbage(0);
  std::memcpy(operand, me.expected, ty->size);
  std::memset(me.desired, sim::pick({0x00, 0xff, 0x5a}), sizeof me.desired);
  if (expected(op, x, y, i, me.desired_value)) ty->apply(me.desired, operand, reg(p, b), op, i);
  else
  {
    Parts const v = gen();
    ty->make(me.desired, v);
    me.desired_value = v.q();
  }
  verify(me.desired, me.desired_value, "the new value");
  me.updating = true;
}

void commit_update(int p)
{
  Process& me = proc[p];
  Bytes const now = shared[me.slot];
  bool const same = std::memcmp(now, me.expected, ty->size) == 0;
  me.updating = false;
  sim::judge();
  sim::ev("compare-and-swap", p, me.slot, same);
  if (same)
  {
    std::memcpy(now, me.desired, ty->size);
    slot_model[me.slot] = me.desired_value;
    if (slot_version[me.slot] != me.version) sim::count("probe:the value had come back");
    ++slot_version[me.slot];
    sim::nontrivial();
    sim::count("updates by compare-and-swap");
  }
  else
  {
    Parts const x = ty->parts(now);
    if (x.whole == me.expected_parts.whole && x.r.n == me.expected_parts.r.n && x.r.d == me.expected_parts.r.d)
      sim::violation("no progress", "%s, %s: compare-and-swap fails although the value is still %s", ty->policy.name,
                     ty->name, text(x).c_str());
    sim::count("probe:compare-and-swap lost to another process");
  }
  verify(now, slot_model[me.slot], "the shared value");
  history = sim::mix(history, uint64_t(same) * 16 + uint64_t(p));
}

// A reader that copies piece by piece while writers go on: a torn copy is some
// value of the type, and is computed with like any other.
void torn_read(int p)
{
  size_t const cut = below(ty->size);
  Bytes const copy = garbage(1);
  int const s = int(below(nslots));
  std::memcpy(copy, shared[s], cut);
  std::memcpy(copy + cut, shared[(s + 1) % nslots] + cut, ty->size - cut); // (what was there a moment later)
  Parts const x = ty->parts(copy), y = ty->parts(reg(p, 0));
  int const op = gen_op();
  i64 const i = gen_int();
  if (ty->mixed || x.r.d == 0 || !ty->limits.fits(x.r.n) || !ty->limits.fits(x.r.d)) return;
  Q q;
  if (!expected(op, x, y, i, q)) return;
  sim::ev("torn", p, s, int64_t(cut), op_name[op], i);
  sim::count("fault:torn copy computed with");
  Bytes const out = garbage(2);
  ty->apply(out, copy, reg(p, 0), op, i);
  verify(out, q, "a result computed from a torn copy");
}

void send(int p, std::vector<Message>& net)
{
  if (net.size() > 6) return;
  Message m;
  m.to = int(below(nproc));
  m.reg = int(below(nregs));
  int const r = int(below(nregs));
  std::memcpy(m.bytes, reg(p, r), ty->size);
  m.value = proc[p].model[r];
  for (size_t at = 0; at < ty->size;)
  {
    size_t const n = std::min(ty->size - at, size_t(1 + below(12)));
    m.pieces.push_back({at, n});
    if (sim::chance(1, 6))
    {
      m.pieces.push_back({at, n});
      sim::count("fault:piece delivered twice");
    }
    at += n;
  }
  std::memset(m.got, 0xcc, sizeof m.got);
  sim::ev("send", p, r, m.to, m.reg, int64_t(m.pieces.size()));
  net.push_back(m);
}

void deliver(std::vector<Message>& net)
{
  size_t const k = below(net.size());
  Message& m = net[k];
  size_t const j = below(m.pieces.size());
  auto const [at, n] = m.pieces[j];
  if (j) sim::count("fault:piece overtook another");
  std::memcpy(m.got + at, m.bytes + at, n);
  m.pieces.erase(m.pieces.begin() + std::ptrdiff_t(j));
  sim::ev("piece", int64_t(k), int64_t(at), int64_t(n));
  if (!m.pieces.empty()) return;
  if (!m.dead)
  {
    // what has arrived is used where it is needed, without further ado
    std::memcpy(reg(m.to, m.reg), m.got, ty->size);
    proc[m.to].model[m.reg] = m.value;
    verify(reg(m.to, m.reg), m.value, "a received value");
    sim::count("values received in pieces");
    sim::nontrivial();
  }
  net.erase(net.begin() + std::ptrdiff_t(k));
}

void run()
{
  auto const& all = types();
  ty = &all[below(all.size())];
  sim::ev("type", ty->policy.name, ty->name);
  if (ty->size != ty->ideal)
    sim::violation("more than its parts", "%s, %s: an object has %zu bytes, its parts %zu", ty->policy.name, ty->name,
                   ty->size, ty->ideal);
  if (ty->align > 16) sim::harness_error("alignment of %s", ty->name);
  nproc = 1 + int(below(nproc_max));
  std::vector<Message> net;
  for (int s = 0; s < nslots; ++s)
  {
    Parts const v = gen();
    ty->make(shared[s], v);
    slot_model[s] = v.q();
    slot_version[s] = 0;
  }
  for (int p = 0; p < nproc; ++p)
  {
    for (int r = 0; r < nregs; ++r) fresh_register(p, r);
    std::memcpy(proc[p].disk, reg(p, 0), nregs * ty->size);
    std::copy(proc[p].model, proc[p].model + nregs, proc[p].disk_model);
  }
  unsigned const mean = sim::chance(1, 20) ? 300 : 40;
  unsigned const moves = unsigned(sim::pick({12, 4, 40})), crashes = unsigned(sim::pick({60, 12, 1000}));
  do
  {
    sim::elapse(1'000 + below(1'000'000));
    int const p = int(below(nproc));
    if (sim::chance(1, moves)) { move_image(p, "move"); continue; }
    if (sim::chance(1, crashes)) { crash(p, net); continue; }
    if (!net.empty() && below(3) == 0) { deliver(net); continue; }
    if (proc[p].updating && below(2) == 0) { commit_update(p); continue; }
    switch (below(8))
    {
      case 0: case 1: local(p); break;
      case 2: case 3:
        if (proc[p].updating) commit_update(p);
        else begin_update(p);
        break;
      case 4: send(p, net); break;
      case 5: reorder(p); break;
      case 6: torn_read(p); break;
      default: checkpoint(p);
    }
  } while (sim::more(mean));
  // the faults stop: what is under way ends
  while (!net.empty()) deliver(net);
  for (int p = 0; p < nproc; ++p)
  {
    // whoever starts an update now has no competitor
    if (proc[p].updating) commit_update(p);
    begin_update(p);
    uint64_t const before = slot_version[proc[p].slot];
    commit_update(p);
    if (slot_version[proc[p].slot] != before + 1)
      sim::violation("no progress", "%s, %s: an update without a competitor fails", ty->policy.name, ty->name);
    for (int r = 0; r < nregs; ++r) verify(reg(p, r), proc[p].model[r], "a register at the end");
  }
  for (int s = 0; s < nslots; ++s) verify(shared[s], slot_model[s], "a shared value at the end");
  sim::schedule(history);
  sim::state(sim::mix(history, uint64_t(ty - all.data())));
}

} // namespace

namespace sim {
World const world = {
  "C25", run,
  "fraction (3 integer types x 8 policies), raw_fraction, mixed_number and duration<fraction>: the objects in memory, "
  "construction, copies, moves, arithmetic, reduction, comparison, hash, std::sort/rotate/swap over them",
  "processes, their memory images and addresses, shared memory and compare-and-swap, the network, the disk",
  "a run is a history of 1-4 processes that compute with, move, copy, send and compare-and-swap the bytes of values; "
  "non-trivial when an image was moved or restored, a value received in pieces or swapped into shared memory"};
}
