// The reference model: exact rationals over 128-bit integers, and for every
// arithmetic policy the predicate "all the terms this policy is documented to
// form fit the representation type". Nothing here includes the library.
#pragma once
#include <cstdint>
#include <string>

namespace model {

using i128 = __int128;
using i64 = int64_t;

inline i128 iabs(i128 v) { return v < 0 ? -v : v; }
inline i128 igcd(i128 a, i128 b)
{
  a = iabs(a);
  b = iabs(b);
  // binary steps are not worth it: most operands are small
  while (b)
  {
    if (a <= INT64_MAX && b <= INT64_MAX)
    {
      uint64_t x = static_cast<uint64_t>(a), y = static_cast<uint64_t>(b);
      while (y)
      {
        uint64_t const t = x % y;
        x = y;
        y = t;
      }
      return static_cast<i128>(x);
    }
    i128 const t = a % b;
    a = b;
    b = t;
  }
  return a;
}

// An exact value: lowest terms, positive denominator; d == 0: undefined.
struct Q {
  i128 n = 0, d = 1;
  bool defined() const { return d != 0; }
};
inline Q undef() { return {0, 0}; }
inline Q make(i128 n, i128 d)
{
  if (d == 0) return undef();
  i128 const g = igcd(n, d);
  if (g > 1) { n /= g; d /= g; }
  return d < 0 ? Q {-n, -d} : Q {n, d};
}
inline bool same(Q const& a, Q const& b) { return a.n == b.n && a.d == b.d; }
Q add(Q const&, Q const&);
Q sub(Q const&, Q const&);
Q mul(Q const&, Q const&);
Q div(Q const&, Q const&);   // x/0 undefined
Q mod(Q const&, Q const&);   // truncated remainder
Q neg(Q const&);
int cmp(Q const&, Q const&); // defined values only
i128 qtrunc(Q const&);
i128 qfloor(Q const&);
i128 qceil(Q const&);
i128 qround(Q const&);       // ties upwards
std::string text(Q const&);
std::string text(i128);

// A representation as the library holds it (any signs, any common factor).
struct R {
  i128 n = 0, d = 1;
  Q q() const { return make(n, d); }
};
inline R reduce_keep_signs(R r)
{
  if (r.d == 0) return {0, 0};
  i128 const g = igcd(r.n, r.d);
  return g > 1 ? R {r.n / g, r.d / g} : r;
}

struct Policy {
  bool lcm;         // least-common-denominator arithmetic (safe) or products (fast)
  bool reduce_in;
  bool reduce_out;
  char const* name;
};

struct Limits {
  i128 max;
  bool is_signed;
  bool fits(i128 v) const { return v <= max && v >= (is_signed ? -max : i128(0)); }
  bool fits(Q const& q) const { return fits(q.n) && fits(q.d); }
};

enum Arith { plus_, minus_, times_, over_, mod_ };

// fraction op fraction: do all terms fit?
bool in_domain(Policy const&, Limits const&, Arith, R, R);
// fraction op integer and integer op fraction
bool in_domain_ri(Policy const&, Limits const&, Arith, R, i128);
bool in_domain_ir(Policy const&, Limits const&, Arith, i128, R);
// comparisons
bool in_domain_cmp(Policy const&, Limits const&, R, R);
bool in_domain_cmp_int(Policy const&, Limits const&, R, i128);
bool in_domain_round(Policy const&, Limits const&, R); // round(): floor, subtract, compare with 1/2

// What the policy is documented to return (used to know the operands of the
// next step inside composite functions, and to keep reference runs going).
R apply(Policy const&, Arith, R, R);
R apply_ri(Policy const&, Arith, R, i128);
R apply_ir(Policy const&, Arith, i128, R);

Q exact(Arith, Q const&, Q const&);

} // namespace model
