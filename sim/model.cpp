#include "model.hpp"
#include "sim.hpp"

#include <algorithm>

namespace model {

// The model's own 128 bits never wrap: a run that would need more is set aside
// (counted as discarded). Terms the library forms are bounded separately.
static i128 times(i128 a, i128 b)
{
  i128 r;
  if (__builtin_mul_overflow(a, b, &r)) sim::discard("a value beyond the 128 bits of the model");
  return r;
}
static i128 plus(i128 a, i128 b)
{
  i128 r;
  if (__builtin_add_overflow(a, b, &r)) sim::discard("a value beyond the 128 bits of the model");
  return r;
}

Q add(Q const& a, Q const& b)
{
  if (!a.defined() || !b.defined()) return undef();
  i128 const g = igcd(a.d, b.d);
  return make(plus(times(a.n, b.d / g), times(b.n, a.d / g)), times(a.d / g, b.d));
}
Q neg(Q const& a) { return {-a.n, a.d}; }
Q sub(Q const& a, Q const& b) { return add(a, neg(b)); }
Q mul(Q const& a, Q const& b)
{
  if (!a.defined() || !b.defined()) return undef();
  if (a.n == 0 || b.n == 0) return {0, 1};
  i128 const g = igcd(a.n, b.d), h = igcd(b.n, a.d);
  return make(times(a.n / g, b.n / h), times(a.d / h, b.d / g));
}
Q div(Q const& a, Q const& b)
{
  if (!a.defined() || !b.defined() || b.n == 0) return undef();
  return mul(a, b.n < 0 ? Q {-b.d, -b.n} : Q {b.d, b.n});
}
i128 qtrunc(Q const& a) { return a.n / a.d; }
i128 qfloor(Q const& a)
{
  i128 const t = a.n / a.d;
  return (a.n % a.d != 0 && a.n < 0) ? t - 1 : t;
}
i128 qceil(Q const& a) { return -qfloor(neg(a)); }
i128 qround(Q const& a) { return qfloor(make(plus(times(a.n, 2), a.d), times(a.d, 2))); }
Q mod(Q const& a, Q const& b)
{
  if (!a.defined() || !b.defined() || b.n == 0) return undef();
  // a - b * trunc(a / b) over the common denominator
  i128 const g = igcd(a.d, b.d);
  i128 const x = times(a.n, b.d / g), y = times(b.n, a.d / g);
  return make(x % y, times(a.d / g, b.d));
}
int cmp(Q const& a, Q const& b)
{
  i128 l, r;
  if (!__builtin_mul_overflow(a.n, b.d, &l) && !__builtin_mul_overflow(b.n, a.d, &r))
    return l < r ? -1 : l > r ? 1 : 0;
  // too large to cross-multiply: by whole parts, then by the reciprocals of the rests
  i128 const x = qfloor(a), y = qfloor(b);
  if (x != y) return x < y ? -1 : 1;
  i128 const p = a.n - x * a.d, q = b.n - y * b.d;
  if (p == 0 || q == 0) return p == q ? 0 : p == 0 ? -1 : 1;
  return cmp(Q {b.d, q}, Q {a.d, p});
}
std::string text(i128 v)
{
  if (v == 0) return "0";
  bool const negative = v < 0;
  std::string s;
  for (i128 x = iabs(v); x; x /= 10) s += static_cast<char>('0' + static_cast<int>(x % 10));
  if (negative) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}
std::string text(Q const& q) { return q.defined() ? text(q.n) + "/" + text(q.d) : "undefined"; }

Q exact(Arith op, Q const& a, Q const& b)
{
  switch (op)
  {
    case plus_: return add(a, b);
    case minus_: return sub(a, b);
    case times_: return mul(a, b);
    case over_: return div(a, b);
    case mod_: return mod(a, b);
  }
  return undef();
}

static i128 lcm(i128 a, i128 b) { return iabs(a) / igcd(a, b) * iabs(b); }

static R norm_out(Policy const& p, R r)
{
  if (!p.reduce_out) return r;
  r = reduce_keep_signs(r);
  return r.d < 0 ? R {-r.n, -r.d} : r;
}

bool in_domain(Policy const& p, Limits const& l, Arith op, R a, R b)
{
  if (p.reduce_in)
  {
    a = reduce_keep_signs(a);
    b = reduce_keep_signs(b);
  }
  if (op == times_) return l.fits(a.n * b.n) && l.fits(a.d * b.d);
  if (op == over_) return l.fits(a.n * b.d) && l.fits(a.d * b.n);
  i128 x, y, m;
  if (p.lcm)
  {
    if (a.d == 0 || b.d == 0) return true;
    m = lcm(a.d, b.d);
    if (!l.fits(m)) return false;
    x = m / a.d;
    y = m / b.d;
    if (!l.fits(x) || !l.fits(y)) return false;
    x *= a.n;
    y *= b.n;
  }
  else
  {
    m = a.d * b.d;
    x = a.n * b.d;
    y = b.n * a.d;
  }
  if (!l.fits(m) || !l.fits(x) || !l.fits(y)) return false;
  if (op == plus_) return l.fits(x + y);
  if (op == minus_) return l.fits(x - y);
  return true;
}

bool in_domain_ri(Policy const& p, Limits const& l, Arith op, R a, i128 b)
{
  if (p.reduce_in) a = reduce_keep_signs(a);
  switch (op)
  {
    case plus_: return l.fits(b * a.d) && l.fits(a.n + b * a.d);
    case minus_: return l.fits(b * a.d) && l.fits(a.n - b * a.d);
    case times_: return l.fits(a.n * b);
    case over_: return l.fits(a.d * b);
    case mod_: return l.fits(a.d * b);
  }
  return false;
}

bool in_domain_ir(Policy const& p, Limits const& l, Arith op, i128 a, R b)
{
  if (p.reduce_in) b = reduce_keep_signs(b);
  switch (op)
  {
    case plus_: return l.fits(a * b.d) && l.fits(a * b.d + b.n);
    case minus_: return l.fits(a * b.d) && l.fits(a * b.d - b.n);
    case times_: return l.fits(a * b.n);
    case over_: return l.fits(a * b.d);
    case mod_: return l.fits(a * b.d);
  }
  return false;
}

bool in_domain_cmp(Policy const& p, Limits const& l, R a, R b)
{
  if (a.d == 0 || b.d == 0) return true;
  return in_domain(p, l, mod_, a, b); // the same scaled terms
}

bool in_domain_cmp_int(Policy const& p, Limits const& l, R a, i128 b)
{
  if (p.reduce_in) a = reduce_keep_signs(a);
  return l.fits(a.d * b);
}

bool in_domain_round(Policy const& p, Limits const& l, R a)
{
  if (a.d == 0) return false;
  i128 const f = qfloor(a.q());
  if (!l.fits(f) || !l.fits(f + 1) || !in_domain_ri(p, l, minus_, a, f)) return false;
  return in_domain_cmp(p, l, apply_ri(p, minus_, a, f), {1, 2});
}

R apply(Policy const& p, Arith op, R a, R b)
{
  if (p.reduce_in)
  {
    a = reduce_keep_signs(a);
    b = reduce_keep_signs(b);
  }
  if (a.d == 0 || b.d == 0) return {0, 0};
  R r {0, 0};
  if (op == times_) r = {a.n * b.n, a.d * b.d};
  else if (op == over_) r = {a.n * b.d, a.d * b.n};
  else
  {
    i128 const m = p.lcm ? lcm(a.d, b.d) : a.d * b.d;
    i128 const x = m / a.d * a.n, y = m / b.d * b.n;
    if (op == mod_ && y == 0) return {0, 0};
    r = {op == plus_ ? x + y : op == minus_ ? x - y : x % y, m};
  }
  return norm_out(p, r);
}

R apply_ri(Policy const& p, Arith op, R a, i128 b)
{
  if (p.reduce_in) a = reduce_keep_signs(a);
  R r {0, 0};
  switch (op)
  {
    case plus_: r = {a.n + b * a.d, a.d}; break;
    case minus_: r = {a.n - b * a.d, a.d}; break;
    case times_: r = {a.n * b, a.d}; break;
    case over_: r = {a.n, a.d * b}; break;
    case mod_:
      if (a.d == 0 || b == 0) return {0, 0};
      r = {a.n % (a.d * b), a.d};
      break;
  }
  return norm_out(p, r);
}

R apply_ir(Policy const& p, Arith op, i128 a, R b)
{
  if (p.reduce_in) b = reduce_keep_signs(b);
  R r {0, 0};
  switch (op)
  {
    case plus_: r = {a * b.d + b.n, b.d}; break;
    case minus_: r = {a * b.d - b.n, b.d}; break;
    case times_: r = {a * b.n, b.d}; break;
    case over_: r = b.d == 0 ? R {0, 0} : R {a * b.d, b.n}; break;
    case mod_:
      if (b.d == 0 || b.n == 0) return {0, 0};
      r = {a * b.d % b.n, b.d};
      break;
  }
  return norm_out(p, r);
}

} // namespace model
