// Fractional durations and time points in several units behind one table per
// policy. span_policy.cpp instantiates it over the library.
#pragma once
#include "model.hpp"
#include "sim.hpp"

#include <cstdint>

namespace span {

using model::i128;
using model::i64;
using model::Q;
using model::R;

constexpr int units = 10;
struct Unit {
  char const* name;
  i64 num, den; // seconds
};
constexpr Unit unit[units] = {{"s", 1, 1},         {"ms", 1, 1000},     {"min", 60, 1},
                              {"1/3 s", 1, 3}, {"1001/30000 s", 1001, 30000}, {"1/24 s", 1, 24},
                              {"7/2 s", 7, 2},        {"1/90000 s", 1, 90000}, {"ns", 1, 1000000000}, {"day", 86400, 1}};
// any unit, those of everyday sizes more often
inline int pick_unit() { return static_cast<int>(sim::below(sim::below(3) ? 6 : units)); }

struct Value {
  alignas(16) unsigned char bytes[16] = {};
};

// A result in a unit of num/den seconds.
struct Out {
  R count;
  i64 num, den;
};

struct Pair {
  // a in unit i, b in unit j
  Value (*convert)(Value const& a, int how);          // to unit j: implicit, duration_cast, time points
  Out (*add)(Value const& a, Value const& b, int how);
  Out (*sub)(Value const& a, Value const& b, int how);
  void (*add_to)(Value& a, Value const& b, int how);
  void (*sub_from)(Value& a, Value const& b, int how);
  R (*ratio)(Value const& a, Value const& b);
  Out (*rem)(Value const& a, Value const& b);
  int (*cmp)(Value const& a, Value const& b, int how);
  // a's count in unit j against a whole number of ticks: fraction first (even) or integer first
  int (*cmp_ticks)(Value const& a, i64 ticks, int how);
};

struct One {
  void (*make)(Value&, i128 n, i128 d);
  R (*count)(Value const&);
  R (*scale)(Value const& a, i64 k, int how);
  R (*scale_by)(Value const& a, i128 n, i128 d, int how); // fraction factor
  R (*divide)(Value const& a, i64 k, int how);
  R (*divide_by)(Value const& a, i128 n, i128 d, int how);
  R (*rem_by)(Value const& a, i64 k);
  R (*neg)(Value const& a);
  R (*abs)(Value const& a);
  // against whole milliseconds / seconds of the standard library
  Out (*add_whole)(Value const& a, i64 k, int how);
  Out (*sub_whole)(Value const& a, i64 k, int how);
  int (*cmp_whole)(Value const& a, i64 k, int how);
  R (*from_whole)(i64 k, int how);       // to_fractional, in the unit itself (duration or point; how >= 4: int32 counts)
};

struct Table {
  model::Policy policy;
  One one[units];
  Pair pair[units][units];
};
Table const* const* all(int& n);
struct Register {
  explicit Register(Table const&);
};

// milliseconds (how even) or seconds (how odd)
inline Unit const& whole_unit(int how) { return unit[how % 2 ? 0 : 1]; }

// The common unit of two units.
inline Unit common(Unit const& a, Unit const& b)
{
  i128 const g = model::igcd(a.num, b.num);
  i128 const l = i128(a.den) / model::igcd(a.den, b.den) * b.den;
  return {"", static_cast<i64>(g), static_cast<i64>(l)};
}

} // namespace span
