// Fractions of five integer types under ten policies behind one table per
// policy. het_policy.cpp instantiates it over the library.
#pragma once
#include "model.hpp"
#include "sim.hpp"

#include <cstdint>

namespace het {

using model::i128;
using model::i64;
using model::Limits;
using model::Q;
using model::R;

constexpr int reps = 5;
struct RepInfo {
  char const* name;
  unsigned bits; // value bits
  Limits limits;
};
constexpr RepInfo rep[reps] = {{"int", 31, {INT32_MAX, true}},
                               {"long", 63, {INT64_MAX, true}},
                               {"unsigned", 32, {UINT32_MAX, false}},
                               {"unsigned long", 64, {UINT64_MAX, false}},
                               {"long long", 63, {INT64_MAX, true}}};
// The usual arithmetic conversions.
constexpr int common(int i, int j)
{
  if (i == j) return i;
  if (i == 3 || j == 3) return 3;
  if (i == 4 || j == 4) return 4;
  if (i == 1 || j == 1) return 1;
  return 2;
}

constexpr int policies = 10;

struct Val {
  alignas(16) unsigned char bytes[16] = {};
};
struct Result {
  R parts;
  unsigned size = 0;  // of the integer type
  bool is_signed = true;
};
struct Mixed {
  i128 whole = 0;
  R fractional;
  R back;             // the fraction it converts to
};

struct Pair {
  // left in rep i, right in rep j. how: 0 fraction and fraction, 1 fraction
  // and integer (b's numerator), 2 integer (a's numerator) and fraction
  Result (*arith)(Val const& a, Val const& b, int op, int how);
  int (*cmp)(Val const& a, Val const& b, int how);
  void (*assign)(Val& a, Val const& b, int op, int how);
  Val (*convert)(Val const& a, int how);     // from i to j
  Mixed (*mixed)(Val const& a, int how);     // whole in j, fractional part in i
};

struct One {
  Val (*store)(R);
  R (*load)(Val const&);
  unsigned (*write)(Val const&, char* to, unsigned size);
  bool (*read)(Val&, char const*, unsigned size);
  double (*to_double)(Val const&);
  Val (*from_double)(double);
};

struct Table {
  model::Policy policy;
  bool sign_normalized; // reduced results have a positive denominator
  int index;
  One one[reps];
  Pair pair[reps][reps];
  Val (*import[policies][reps][reps])(Val const&, int how); // from another policy
};
Table const* const* all();
struct Register {
  explicit Register(Table const&);
};

} // namespace het
