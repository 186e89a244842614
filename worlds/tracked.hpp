// Follows the representation a policy is documented to produce and whether
// every term of the computation fits its integer type.
#pragma once
#include "model.hpp"

namespace model {

struct Tracker {
  Policy p;
  Limits l;
  bool ok = true;

  R go(Arith op, R a, R b)
  {
    if (!ok || !l.fits(a.n) || !l.fits(a.d) || !l.fits(b.n) || !l.fits(b.d) || !in_domain(p, l, op, a, b))
    {
      ok = false;
      return {0, 1};
    }
    R const r = apply(p, op, a, b);
    if (!l.fits(r.n) || !l.fits(r.d)) ok = false;
    return r;
  }
  R ri(Arith op, R a, i128 i)
  {
    if (!ok || !l.fits(a.n) || !l.fits(a.d) || !l.fits(i) || !in_domain_ri(p, l, op, a, i))
    {
      ok = false;
      return {0, 1};
    }
    R const r = apply_ri(p, op, a, i);
    if (!l.fits(r.n) || !l.fits(r.d)) ok = false;
    return r;
  }
  R ir(Arith op, i128 i, R a)
  {
    if (!ok || !l.fits(a.n) || !l.fits(a.d) || !l.fits(i) || !in_domain_ir(p, l, op, i, a))
    {
      ok = false;
      return {0, 1};
    }
    R const r = apply_ir(p, op, i, a);
    if (!l.fits(r.n) || !l.fits(r.d)) ok = false;
    return r;
  }
  R add(R a, R b) { return go(plus_, a, b); }
  R sub(R a, R b) { return go(minus_, a, b); }
  R mul(R a, R b) { return go(times_, a, b); }
  R div(R a, R b) { return go(over_, a, b); }
  R mod(R a, R b) { return go(mod_, a, b); }
  void cmp(R a, R b)
  {
    if (ok) ok = l.fits(a.n) && l.fits(a.d) && l.fits(b.n) && l.fits(b.d) && in_domain_cmp(p, l, a, b);
  }
  // what std::chrono::duration_cast does to a count for the factor num/den
  R convert(R a, i128 num, i128 den)
  {
    i128 const g = igcd(num, den);
    num /= g;
    den /= g;
    if (num != 1) a = mul(a, {num, 1});
    if (den != 1) a = div(a, {den, 1});
    if (!l.fits(a.n) || !l.fits(a.d)) ok = false;
    return a;
  }
};

// six comparison answers as bits, as calc and the worlds record them
inline int six(Q const& x, Q const& y)
{
  int const k = cmp(x, y);
  return (k == 0) | (k != 0) << 1 | (k < 0) << 2 | (k <= 0) << 3 | (k > 0) << 4 | (k >= 0) << 5;
}

} // namespace model
