#include "calc.hpp"

#include <cmath>
#include <cstdio>
#include <cstring>
#include <vector>

namespace calc {

using namespace model;
using sim::below;

static Calc const* registry[64];
static int registered = 0;
Register::Register(Calc const& c) { registry[registered++] = &c; }
Calc const* const* all(int& n)
{
  // registration order depends on link order; sort by name so that a seed
  // means the same thing in every build
  static bool sorted = false;
  if (!sorted)
  {
    sorted = true;
    for (int i = 1; i < registered; ++i)
      for (int k = i; k > 0 && std::strcmp(registry[k]->name, registry[k - 1]->name) < 0; --k)
        std::swap(registry[k], registry[k - 1]);
  }
  n = registered;
  return registry;
}

static char const* const names[] = {
  "add_ff", "sub_ff", "mul_ff", "div_ff", "mod_ff", "add_fi", "sub_fi", "mul_fi", "div_fi",
  "mod_fi", "add_if", "sub_if", "mul_if", "div_if", "mod_if", "cadd_ff", "csub_ff", "cmul_ff",
  "cdiv_ff", "cmod_ff", "cadd_fi", "csub_fi", "cmul_fi", "cdiv_fi", "cmod_fi", "cmp_ff", "cmp_fi",
  "cmp_if", "negate", "promote", "abs", "reciprocal", "normalize_signs", "reduce",
  "reduce_ignore_signs", "construct", "mixed_rep", "trunc", "ceil", "floor", "round", "to_whole",
  "redenominate", "pow2", "pow", "queries", "identical", "hash", "to_float", "to_double",
  "to_long_double", "from_float", "from_double", "from_text", "format", "parse", "literal",
  "ratio", "mix_make", "mix_neg", "mix_add", "mix_add_f", "mix_add_i", "time_convert",
  "time_arith", "clock_read", "mixed_rep_i", "mixed_rep_cmp", "mixed_rep_assign", "literal_div",
  "dec_literal", "mix_parts", "mix_reps", "mix_hash", "time_whole"};
static_assert(sizeof names / sizeof *names == kind_count);
char const* kind_name(int k) { return names[k]; }

// ------------------------------------------------------------------ generators

static i128 random_bits(unsigned bits)
{
  if (bits == 0) return 0;
  uint64_t const v = bits >= 64 ? (below(uint64_t(1) << 32) << 32 | below(uint64_t(1) << 32))
                     : bits > 32
                       ? (below(uint64_t(1) << (bits - 32)) << 32 | below(uint64_t(1) << 32))
                       : below(uint64_t(1) << bits);
  return static_cast<i128>(v);
}

static i128 clamp(Calc const& c, i128 v)
{
  if (v > c.limits.max) return c.limits.max;
  return v;
}

static i128 smooth(unsigned bits)
{
  static constexpr int p[] = {1, 2, 3, 4, 5, 6, 8, 10, 12, 7, 60, 9, 1001, 1000, 16, 360};
  i128 v = 1;
  for (int k = 0; k < 6; ++k)
  {
    i128 const n = v * p[below(16)];
    if (n >> (bits > 100 ? 100 : bits)) break;
    v = n;
    if (!sim::chance(2, 3)) break;
  }
  return v;
}

static i128 magnitude(Calc const& c, unsigned bits)
{
  switch (below(6))
  {
    case 0: return random_bits(bits < 4 ? bits : 4);
    case 1: return clamp(c, random_bits(1 + static_cast<unsigned>(below(bits))));
    case 2: return clamp(c, smooth(bits));
    case 3: return clamp(c, (i128(1) << below(bits + 1)) - (below(2) ? 1 : 0));
    case 4: // next to the top of the range
      return bits + 1 >= c.rep_bits ? c.limits.max - i128(below(4)) : clamp(c, random_bits(bits));
    default: return clamp(c, random_bits(bits));
  }
}

i64 gen_int(Calc const& c, unsigned bits)
{
  i128 v = magnitude(c, bits);
  if (c.limits.is_signed && below(2)) v = -v;
  return static_cast<i64>(v);
}

R gen_parts(Calc const& c, unsigned bits, bool allow_undefined)
{
  R r;
  r.d = magnitude(c, bits);
  if (r.d == 0) r.d = 1;
  r.n = magnitude(c, bits);
  if (sim::chance(1, 3))
  { // a common factor
    i128 const f = 1 + i128(below(12));
    if (c.limits.fits(r.n * f) && c.limits.fits(r.d * f))
    {
      r.n *= f;
      r.d *= f;
    }
  }
  if (c.limits.is_signed)
  {
    uint64_t const s = below(4);
    if (s & 1) r.n = -r.n;
    if (s & 2) r.d = -r.d;
  }
  if (allow_undefined && sim::chance(1, 12)) r.d = 0;
  return r;
}

// Something that meets r closely: same denominator, equal value, neighbour.
R gen_related(Calc const& c, R r, unsigned bits)
{
  R s = r;
  i128 const far = i128(1) << below(c.rep_bits);
  switch (below(8))
  {
    case 0: return gen_parts(c, bits);
    case 5: s = {r.n, r.d + far}; break;
    case 6: s = {r.n + far, r.d}; break;
    case 1: s = {r.n + i128(below(3)) - 1, r.d}; break;
    case 2:
    {
      i128 const f = 2 + i128(below(9));
      s = {r.n * f, r.d * f};
      break;
    }
    case 3: s = {-r.n, -r.d}; break;
    case 4: s = {gen_int(c, bits), r.d}; break;
    default: s = {r.d, r.n}; break;
  }
  if (s.d == 0 || !c.limits.fits(s.n) || !c.limits.fits(s.d)) return gen_parts(c, bits);
  return s;
}

static void finish_text(std::string const& s, Args& a, TextBuffer& t)
{
  std::memcpy(t.data, s.c_str(), s.size() + 1);
  a.text = t.data;
  a.text_len = static_cast<unsigned>(s.size());
}

void gen_aux(Calc const& c, int kind, unsigned bits, Args& a, TextBuffer& t)
{
  a.i = gen_int(c, bits);
  a.mode = static_cast<int>(below(8));
  switch (kind)
  {
    case pow2_: a.i = sim::range(0, 2 * int(c.rep_bits) - 1) - int(c.rep_bits) + 1; break;
    case pow_:
      a.mode = static_cast<int>(sim::range(0, 24)) - 8;
      a.i = gen_int(c, 1 + static_cast<unsigned>(below(6)));
      if (sim::chance(1, 3))
      { // long exponents of small bases
        a.mode = static_cast<int>(sim::range(0, 2 * int(c.rep_bits))) - int(c.rep_bits);
        a.i = static_cast<i64>(below(4)) - (c.limits.is_signed && below(2) ? 3 : 0);
      }
      break;
    case from_float:
    case from_double:
    {
      // significand and exponent such that the value is usually representable
      i64 const m = static_cast<i64>(random_bits(1 + static_cast<unsigned>(below(kind == from_float ? 24 : 53))));
      int const e = static_cast<int>(sim::range(0, 80)) - 40;
      a.real = std::ldexp(static_cast<double>(m), e);
      if (below(2)) a.real = -a.real;
      break;
    }
    case from_text:
    case dec_literal:
    {
      std::string s;
      bool const hex = sim::chance(1, 4);
      auto const digits = [&](int n, bool pad = false) {
        if (pad && sim::chance(1, 8)) // leading zeros
          for (auto z = 1 + below(24); z > 0; --z) s += n || z > 1 ? '0' : '1';
        for (int k = 0; k < n; ++k)
        {
          if (k && sim::chance(1, 8)) s += '\'';
          s += "0123456789abcdefABCDEF"[below(hex ? 22 : 10)];
        }
      };
      if (hex) s += below(2) ? "0x" : "0X";
      int const w = static_cast<int>(below(c.is_long ? 6 : 4)), f = static_cast<int>(below(c.is_long ? 6 : 4));
      if (sim::chance(1, 6))
      { // as many digits as fit
        auto const front = below(c.rep_bits / 4);
        auto const behind = below(c.rep_bits / 4 - front);
        digits(static_cast<int>(1 + front), true);
        s += '.';
        digits(static_cast<int>(behind));
        if (hex) s += "p0";
        finish_text(s, a, t);
        break;
      }
      digits(w, true);
      bool const point = f > 0 || w == 0 || below(2);
      if (point) s += '.';
      digits(w == 0 && f == 0 ? 1 : f);
      if (hex || !point || sim::chance(1, 3))
      {
        s += hex ? (below(2) ? 'p' : 'P') : (below(2) ? 'e' : 'E');
        static char const* const signs[] = {"", "+", "-"};
        s += signs[below(3)];
        s += std::to_string(below(hex ? 9 : 4));
      }
      finish_text(s, a, t);
      break;
    }
    case mixed_rep:
    case mixed_rep_i:
    case mixed_rep_assign: a.mode = static_cast<int>(below(10)); break;
    case time_whole: a.i = gen_int(c, bits < 36 ? bits : 36); break;
    default: break;
  }
}

// ------------------------------------------------------------------ references

Q exact_double(double x, bool& fits_128)
{
  fits_128 = true;
  if (!std::isfinite(x)) return undef();
  if (x == 0) return {0, 1};
  int e;
  double const m = std::frexp(std::fabs(x), &e);
  i128 n = static_cast<i128>(std::ldexp(m, 53));
  e -= 53;
  while (n % 2 == 0)
  {
    n /= 2;
    ++e;
  }
  if (e > 70 || e < -120)
  {
    fits_128 = false;
    return undef();
  }
  if (x < 0) n = -n;
  return e >= 0 ? Q {n << e, 1} : Q {n, i128(1) << -e};
}

// The grammar, written independently of the library:
//   decimal: W '.' F? E? | '.' F E? | W E          with E = [eE][+-]?D
//   hexadecimal: 0[xX] ( W '.' F? | '.' F | W ) P   with P = [pP][+-]?D
// where W, F, D are digits, each separator ' between two digits.
Q parse_decimal(char const* s, unsigned n, Limits const& lim, bool& valid, bool& in_domain)
{
  valid = false;
  in_domain = false;
  unsigned i = 0;
  int base = 10;
  if (n > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X'))
  {
    base = 16;
    i = 2;
  }
  struct Digits {
    bool present = false, ok = true;
    i128 value = 0;
    int count = 0;
    bool huge = false;
  };
  auto const digit = [&](char ch, int b) -> int {
    if (ch >= '0' && ch <= '9') return ch - '0';
    if (b == 16 && ch >= 'a' && ch <= 'f') return ch - 'a' + 10;
    if (b == 16 && ch >= 'A' && ch <= 'F') return ch - 'A' + 10;
    return -1;
  };
  auto const scan = [&](int b) {
    Digits d;
    bool last_digit = false;
    for (; i < n; ++i)
    {
      int const v = digit(s[i], b);
      if (v >= 0)
      {
        d.present = true;
        last_digit = true;
        ++d.count;
        if (d.value > (i128(1) << 110)) d.huge = true;
        else d.value = d.value * b + v;
      }
      else if (s[i] == '\'')
      {
        if (!last_digit) { d.ok = false; return d; }
        last_digit = false;
      }
      else
        break;
    }
    if (d.present && !last_digit) d.ok = false;
    return d;
  };
  Digits const w = scan(base);
  if (!w.ok) return undef();
  bool const point = i < n && s[i] == '.';
  Digits f;
  if (point)
  {
    ++i;
    f = scan(base);
    if (!f.ok) return undef();
  }
  if (!w.present && !f.present) return undef();
  bool const exponent = i < n
                        && (base == 10 ? (s[i] == 'e' || s[i] == 'E') : (s[i] == 'p' || s[i] == 'P'));
  Digits e;
  bool negative = false;
  if (exponent)
  {
    ++i;
    if (i < n && (s[i] == '+' || s[i] == '-')) negative = s[i++] == '-';
    e = scan(10);
    if (!e.ok || !e.present) return undef();
  }
  if (i != n) return undef();
  if (base == 10 && !point && !exponent) return undef();
  if (base == 16 && !exponent) return undef();
  valid = true;
  if (w.huge || f.huge || e.huge || e.value > 126 || f.count > 36) return undef();
  i128 scale = 1;
  for (int k = 0; k < f.count; ++k)
  {
    scale *= base;
    if (!lim.fits(scale)) return undef();
  }
  i128 power = 1;
  for (i128 k = 0; k < e.value; ++k)
  {
    power *= base == 10 ? 10 : 2;
    if (!lim.fits(power)) return undef();
  }
  if (!lim.fits(w.value) || !lim.fits(f.value)) return undef();
  in_domain = true; // of the parts; the caller adds the policy's terms
  Q const mantissa = add(Q {w.value, 1}, make(f.value, scale));
  return negative ? div(mantissa, Q {power, 1}) : mul(mantissa, Q {power, 1});
}

// Do the terms formed while combining the parts of a text fit?
static bool text_terms_fit(Calc const& c, char const* s, unsigned n)
{
  // recompute the parts (the text is known to be valid and in range)
  unsigned i = 0;
  int base = 10;
  if (n > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { base = 16; i = 2; }
  auto const value = [&](char ch) {
    return ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10;
  };
  auto const is_digit = [&](char ch) {
    return (ch >= '0' && ch <= '9')
           || (base == 16 && ((ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F')));
  };
  i128 w = 0, f = 0, scale = 1, e = 0, power = 1;
  for (; i < n && (is_digit(s[i]) || s[i] == '\''); ++i)
    if (s[i] != '\'') w = w * base + value(s[i]);
  if (i < n && s[i] == '.')
    for (++i; i < n && (is_digit(s[i]) || s[i] == '\''); ++i)
      if (s[i] != '\'') { f = f * base + value(s[i]); scale *= base; }
  bool negative = false;
  if (i < n)
  {
    ++i;
    if (i < n && (s[i] == '+' || s[i] == '-')) negative = s[i++] == '-';
    for (; i < n; ++i)
      if (s[i] != '\'') e = e * 10 + (s[i] - '0');
  }
  for (i128 k = 0; k < e; ++k) power *= base == 10 ? 10 : 2;
  R const frac {f, scale};
  if (!in_domain_ir(c.policy, c.limits, plus_, w, frac)) return false;
  R const m = apply_ir(c.policy, plus_, w, frac);
  return in_domain(c.policy, c.limits, times_, m, negative ? R {1, power} : R {power, 1});
}

// ------------------------------------------------------------------ expectations

static bool mixed_fits(Calc const& c, Limits const&, R r, R* fraction_part);
static bool mixed_fits(Calc const& c, R r, R* fraction_part)
{
  return mixed_fits(c, c.limits, r, fraction_part);
}
static bool mixed_fits(Calc const& c, Limits const& l, R r, R* fraction_part)
{
  if (r.d == 0) return false;
  i128 const w = qtrunc(r.q());
  if (!l.fits(w) || !in_domain_ri(c.policy, l, minus_, r, w)) return false;
  *fraction_part = apply_ri(c.policy, minus_, r, w);
  return true;
}

static void expect_mixed(Expect& e, Q const& q)
{
  e.type = Result::ints;
  i128 const w = qtrunc(q);
  Q const f = sub(q, Q {w, 1});
  e.v[0] = static_cast<i64>(w);
  e.v[1] = static_cast<i64>(f.n);
  e.v[2] = static_cast<i64>(f.d);
}

Expect expect(Calc const& c, int kind, Args const& args)
{
  Expect e;
  auto const& p = c.policy;
  auto const& l = c.limits;
  R const a = args.a ? c.load(*args.a) : R {};
  R const b = args.b ? c.load(*args.b) : R {};
  Q const qa = a.q(), qb = b.q();
  Q const qi {args.i, 1};
  auto const frac = [&](Q const& q, bool canonical) {
    e.type = Result::frac;
    e.q = q;
    e.canonical = canonical && q.defined();
  };
  auto const six = [&](Q const& x, Q const& y) {
    e.type = Result::bits;
    if (!x.defined() || !y.defined())
      e.v[0] = 2; // only !=
    else
    {
      int const k = cmp(x, y);
      e.v[0] = (k == 0) | (k != 0) << 1 | (k < 0) << 2 | (k <= 0) << 3 | (k > 0) << 4 | (k >= 0) << 5;
    }
  };
  // operands of another representation: int beside int64, otherwise int64;
  // such operations are computed in int64
  Limits const wide {INT64_MAX, true};
  Limits const other {c.is_long ? INT32_MAX : INT64_MAX, true};
  bool const undefined_operand = a.d == 0 || (args.b && b.d == 0);

  switch (kind)
  {
    case add_ff: case sub_ff: case mul_ff: case div_ff: case mod_ff:
    case cadd_ff: case csub_ff: case cmul_ff: case cdiv_ff: case cmod_ff:
    {
      auto const op = static_cast<Arith>(kind >= cadd_ff ? kind - cadd_ff : kind - add_ff);
      frac(exact(op, qa, qb), p.reduce_out);
      e.ok = in_domain(p, l, op, a, b) || undefined_operand;
      break;
    }
    case add_fi: case sub_fi: case mul_fi: case div_fi: case mod_fi:
    case cadd_fi: case csub_fi: case cmul_fi: case cdiv_fi: case cmod_fi:
    {
      auto const op = static_cast<Arith>(kind >= cadd_fi ? kind - cadd_fi : kind - add_fi);
      frac(exact(op, qa, qi), p.reduce_out);
      e.ok = in_domain_ri(p, l, op, a, args.i) || a.d == 0;
      break;
    }
    case add_if: case sub_if: case mul_if: case div_if: case mod_if:
    {
      auto const op = static_cast<Arith>(kind - add_if);
      frac(exact(op, qi, qa), p.reduce_out);
      e.ok = in_domain_ir(p, l, op, args.i, a) || a.d == 0;
      break;
    }
    case cmp_ff:
      six(qa, qb);
      e.ok = in_domain_cmp(p, l, a, b);
      break;
    case cmp_fi:
      six(qa, qi);
      e.ok = in_domain_cmp_int(p, l, a, args.i);
      break;
    case cmp_if:
      six(qi, qa);
      e.ok = in_domain_cmp_int(p, l, a, args.i);
      break;
    case negate:
      frac(neg(qa), p.reduce_out);
      e.ok = l.is_signed || a.n == 0 || a.d == 0;
      break;
    case promote:
    case construct:
      frac(qa, false);
      e.any_parts = false;
      e.parts = a;
      e.ok = true;
      break;
    case abs_:
      frac(qa.n < 0 ? neg(qa) : qa, false);
      e.ok = true;
      break;
    case reciprocal_:
      frac(a.d == 0 || a.n == 0 ? undef() : make(a.d, a.n), false);
      e.ok = true;
      break;
    case normalize_:
      frac(qa, false);
      if (a.d != 0)
      {
        e.any_parts = false;
        e.parts = a.d < 0 ? R {-a.n, -a.d} : a;
      }
      e.ok = true;
      break;
    case reduce_:
      frac(qa, true);
      e.ok = true;
      break;
    case reduce_signs:
      frac(qa, false);
      if (a.d != 0)
      {
        e.any_parts = false;
        e.parts = reduce_keep_signs(a);
      }
      e.ok = true;
      break;
    case mixed_rep: // computed in long: a op (fraction<int> b), see calc_impl
    {
      auto const op = static_cast<Arith>(args.mode % 5);
      bool const swap = args.mode >= 5;
      frac(swap ? exact(op, qb, qa) : exact(op, qa, qb), p.reduce_out);
      e.ok = (a.d == 0 || b.d == 0 || in_domain(p, wide, op, swap ? b : a, swap ? a : b))
             && other.fits(b.n) && other.fits(b.d);
      break;
    }
    case mixed_rep_i:
    {
      auto const op = static_cast<Arith>(args.mode % 5);
      bool const swap = args.mode >= 5;
      frac(swap ? exact(op, qi, qa) : exact(op, qa, qi), p.reduce_out);
      e.ok = (a.d == 0 || (swap ? in_domain_ir(p, wide, op, args.i, a) : in_domain_ri(p, wide, op, a, args.i)))
             && other.fits(args.i);
      break;
    }
    case mixed_rep_cmp:
      if (args.mode % 4 >= 2)
      {
        if (args.mode % 2) six(qi, qa);
        else six(qa, qi);
        e.ok = in_domain_cmp_int(p, wide, a, args.i) && other.fits(args.i);
      }
      else
      {
        if (args.mode % 2) six(qb, qa);
        else six(qa, qb);
        e.ok = in_domain_cmp(p, wide, a, b) && other.fits(b.n) && other.fits(b.d);
      }
      break;
    case mixed_rep_assign: // computed in the representation of the target
    {
      auto const op = static_cast<Arith>(args.mode % 5);
      if (args.mode >= 5)
      {
        frac(exact(op, qa, qi), p.reduce_out);
        e.ok = (in_domain_ri(p, l, op, a, args.i) || a.d == 0) && other.fits(args.i);
      }
      else
      {
        frac(exact(op, qa, qb), p.reduce_out);
        e.ok = (in_domain(p, l, op, a, b) || undefined_operand) && other.fits(b.n) && other.fits(b.d);
      }
      break;
    }
    case literal_div: // fraction / literal, integer / negated literal
    {
      i128 const v = args.mode % 2 ? -iabs(b.d) : iabs(b.d);
      if (!l.fits(v)) break;
      if (args.mode % 4 >= 2)
      {
        frac(make(args.i, v), false);
        e.any_parts = false;
        e.parts = {args.i, v};
        e.ok = true;
      }
      else
      {
        frac(exact(over_, qa, Q {v, 1}), p.reduce_out);
        e.ok = in_domain_ri(p, l, over_, a, v) || a.d == 0;
      }
      break;
    }
    case trunc_: case ceil_: case floor_: case round_: case to_whole_:
    {
      if (a.d == 0) break;
      int const mode = kind == to_whole_ ? args.mode % 4 : kind - trunc_;
      i128 const v = mode == 0   ? qtrunc(qa)
                     : mode == 1 ? qceil(qa)
                     : mode == 2 ? qfloor(qa)
                                 : qround(qa);
      e.type = Result::ints;
      e.v[0] = static_cast<i64>(v);
      e.ok = l.fits(v) && l.fits(qtrunc(qa)) && (mode != 3 || in_domain_round(p, l, a));
      break;
    }
    case redenominate_:
    {
      if (a.d == 0 || args.i == 0) break;
      i128 const g = args.i;
      int const mode = args.mode % 4;
      // the library forms value * g (or -g)
      i128 const scale = g;
      if (!in_domain_ri(p, l, times_, a, scale) || (g < 0 && !l.is_signed)) break;
      R const scaled = apply_ri(p, times_, a, scale);
      if (mode == 3 && !in_domain_round(p, l, scaled)) break;
      Q const grid = mul(qa, Q {iabs(g), 1}); // in steps of 1/|g|
      i128 steps = 0, alt = 0;
      switch (mode)
      {
        case 0: steps = qtrunc(grid); break;
        case 1: steps = qceil(grid); break;
        case 2: steps = qfloor(grid); break;
        default:
          steps = qround(grid);
          alt = qceil(sub(grid, Q {1, 2})); // the other neighbour of a tie
          e.has_alt = true;
      }
      if (!l.fits(steps) || !l.fits(iabs(steps) + 1)) break;
      frac(make(steps, iabs(g)), false);
      e.alt = make(alt, iabs(g));
      e.ok = true;
      break;
    }
    case pow2_:
      if (args.i >= int(c.rep_bits) || -args.i >= int(c.rep_bits)) break;
      frac(args.i >= 0 ? Q {i128(1) << args.i, 1} : Q {1, i128(1) << -args.i}, false);
      e.ok = true;
      break;
    case pow_:
    {
      i128 v = 1;
      int const k = args.mode < 0 ? -args.mode : args.mode;
      bool fits = true;
      bool const unit = args.i >= -1 && args.i <= 1;
      for (int j = 0; j < (unit && k > 2 ? 2 + k % 2 : k); ++j)
      {
        v *= args.i;
        if (!l.fits(v)) { fits = false; break; }
      }
      if (!fits) break;
      frac(args.mode >= 0 ? make(v, 1) : make(1, v), false);
      e.ok = true;
      break;
    }
    case queries:
    {
      e.type = Result::bits;
      e.ok = true;
      if (a.d == 0)
      {
        e.v[0] = 2;              // undefined, and nothing else
        e.mask = 0x7f | 1 << 7;  // definedness, signs, integer
        break;
      }
      int const s = qa.n > 0 ? 1 : qa.n < 0 ? -1 : 0;
      i64 v = 1;
      v |= (s > 0) << 2 | (s >= 0) << 3 | (s == 0) << 4 | (s <= 0) << 5 | (s < 0) << 6;
      v |= (qa.d == 1) << 7;
      v |= (iabs(qa.n) == 1) << 8;
      bool const low = igcd(a.n, a.d) == 1;
      v |= low << 9 | (low && a.d > 0) << 10;
      v |= (iabs(a.n) < iabs(a.d)) << 11 | (iabs(a.n) >= iabs(a.d)) << 12;
      e.v[0] = v;
      break;
    }
    case identical:
      e.type = Result::bits;
      e.v[0] = (a.n == b.n && a.d == b.d) ? 1 : 2;
      e.ok = true;
      break;
    case hash_: // equal values, equal hashes: v[0] compares a with reduced a
      e.type = Result::bits;
      e.v[0] = 1;
      e.ok = a.d != 0;
      break;
    case to_float_: case to_double_: case to_long_double_:
    {
      e.type = Result::bits;
      e.v[0] = 1; // compared inside judge
      i128 const top = kind == to_float_ ? i128(1) << 24 : kind == to_double_ ? i128(1) << 53 : i128(1) << 64;
      e.ok = a.d == 0 || (iabs(qa.n) <= top && qa.d <= top);
      e.q = qa;
      break;
    }
    case from_float:
    case from_double:
    {
      bool fits;
      Q const q = exact_double(kind == from_float ? static_cast<double>(static_cast<float>(args.real)) : args.real, fits);
      if (q.defined() && fits && q.n == -l.max - 1) break; // the asymmetric minimum is left open
      frac(q.defined() && fits && l.fits(q) ? q : undef(), false);
      e.ok = true;
      break;
    }
    case from_text:
    case dec_literal:
    {
      bool valid, in_range;
      Q const q = parse_decimal(args.text, args.text_len, l, valid, in_range);
      if (!valid) frac(undef(), false);
      else frac(q, false);
      e.ok = !valid || (in_range && text_terms_fit(c, args.text, args.text_len) && l.fits(q));
      if (kind == dec_literal) e.ok = e.ok && valid;
      break;
    }
    case format_:
      e.type = Result::bits;
      e.v[0] = 1;
      e.parts = a;
      e.ok = true;
      break;
    case parse_:
      frac(qa, false);
      e.any_parts = false;
      e.parts = a;
      e.ok = true;
      break;
    case literal_: // i / (d)_fr : parts taken over
      if (a.d <= 0) break;
      frac(make(args.i, a.d), false);
      e.any_parts = false;
      e.parts = {args.i, a.d};
      e.ok = true;
      break;
    case ratio_:
      frac(args.mode % 2 ? Q {1001, 30000} : Q {1, 1000}, false);
      e.ok = l.fits(30000);
      break;
    case mix_make:
    {
      R f;
      if (!mixed_fits(c, a, &f)) break;
      expect_mixed(e, qa);
      e.ok = true;
      break;
    }
    case mix_neg:
    {
      R f;
      if (!l.is_signed || !mixed_fits(c, a, &f)) break;
      expect_mixed(e, neg(qa));
      e.ok = true;
      break;
    }
    case mix_add: case mix_add_f:
    {
      R f, g;
      if (!mixed_fits(c, a, &f) || !mixed_fits(c, b, &g)) break;
      if (!in_domain(p, l, plus_, f, g)) break;
      R const s = apply(p, plus_, f, g);
      i128 const w = qtrunc(qa) + qtrunc(qb);
      if (!l.fits(w) || !l.fits(iabs(w) + 2)) break;
      if (!l.fits(iabs(s.n) + 2 * iabs(s.d))) break; // the repair step adds one
      expect_mixed(e, add(qa, qb));
      e.ok = true;
      break;
    }
    case mix_add_i:
    {
      R f;
      if (!mixed_fits(c, a, &f)) break;
      i128 const w = qtrunc(qa) + args.i;
      if (!l.fits(iabs(w) + 2) || !l.fits(w) || !l.fits(iabs(f.n) + 2 * iabs(f.d))) break;
      if (!l.is_signed && w < 0) break;
      expect_mixed(e, add(qa, qi));
      e.ok = true;
      break;
    }
    case mix_parts: // a whole number and any fraction
    {
      if (b.d == 0) break;
      i128 w = args.i;
      R f = b;
      if (iabs(f.n) >= iabs(f.d))
      {
        i128 const t = qtrunc(qb);
        if (!l.fits(t) || !in_domain_ri(p, l, minus_, f, t)) break;
        w += t;
        if (!l.fits(w)) break;
        f = apply_ri(p, minus_, f, t);
      }
      Q const v = f.q();
      if (w > 0 && v.n < 0) { if (!in_domain_ir(p, l, plus_, 1, f)) break; }
      else if (w < 0 && v.n > 0) { if (!in_domain_ir(p, l, plus_, -1, f)) break; }
      expect_mixed(e, add(qi, qb));
      e.ok = true;
      break;
    }
    case mix_reps:
    {
      R f, g;
      if (!mixed_fits(c, a, &f)) break;
      if (args.mode % 2)
      { // the sum of two of different representations
        if (!other.fits(b.n) || !other.fits(b.d) || !mixed_fits(c, other, b, &g)) break;
        if (!in_domain(p, wide, plus_, f, g)) break;
        R const s = apply(p, plus_, f, g);
        i128 const w = qtrunc(qa) + qtrunc(qb);
        if (!wide.fits(iabs(w) + 2) || !wide.fits(iabs(s.n) + 2 * iabs(s.d))) break;
        expect_mixed(e, add(qa, qb));
      }
      else
      { // whole and fractional parts of different representations
        if (!other.fits(f.n) || !other.fits(f.d)) break;
        if (!in_domain_ir(p, wide, plus_, qtrunc(qa), f)) break;
        expect_mixed(e, qa);
      }
      e.ok = true;
      break;
    }
    case mix_hash:
    {
      R f, g;
      R low = reduce_keep_signs(a);
      if (low.d < 0) low = {-low.n, -low.d};
      e.type = Result::bits;
      e.v[0] = 1;
      e.ok = mixed_fits(c, a, &f) && mixed_fits(c, low, &g);
      break;
    }
    case time_whole:
    {
      static Q const factor[] = {{1, 1}, {1, 1}, {1, 1000}, {60, 1}};
      frac(mul(qi, factor[args.mode % 4]), false);
      e.ok = l.fits(i128(iabs(args.i)) * 60000000);
      break;
    }
    case time_convert: // a seconds -> other unit -> back
    {
      static Q const per_second[] = {{1000, 1}, {1, 60}, {24, 1}, {1000000, 1}};
      Q const f = per_second[args.mode % 4];
      if (a.d == 0) break;
      frac(mul(qa, f), false);
      e.ok = l.fits(a.n * 60000000) && l.fits(a.d * 60000000);
      break;
    }
    case time_arith: // (a seconds + b milliseconds) in milliseconds
    {
      if (a.d == 0 || b.d == 0) break;
      frac(add(mul(qa, Q {1000, 1}), qb), false);
      R const s {a.n * 1000, a.d};
      e.ok = l.fits(a.n * 1000) && in_domain(p, l, plus_, s, b)
             && l.fits(iabs(s.n * b.d) + iabs(b.n * s.d)) && l.fits(s.d * b.d);
      break;
    }
    case clock_read: // the simulated clock reads i milliseconds; the wrapper is asked in seconds
      frac(make(args.i, 1000), false);
      e.ok = l.fits(i128(iabs(args.i)) * 1000);
      break;
    default: break;
  }
  return e;
}

// ------------------------------------------------------------------ judgement

bool judge(Calc const& c, int kind, Args const& args, Expect const& e, R a, Result const& r,
           char const* where)
{
  char cls[96];
  std::snprintf(cls, sizeof cls, "%s:%s", where, kind_name(kind));
  R const b = args.b ? c.load(*args.b) : R {};
  auto const bad = [&](std::string const& want, std::string const& got) {
    sim::violation(cls, "%s: %s of %s/%s and %s/%s, integer %lld, mode %d, real %a, text \"%.*s\": expected %s, got %s",
                   c.name, kind_name(kind), text(a.n).c_str(), text(a.d).c_str(),
                   text(b.n).c_str(), text(b.d).c_str(), static_cast<long long>(args.i),
                   args.mode, args.real, static_cast<int>(args.text_len),
                   args.text ? args.text : "", want.c_str(), got.c_str());
  };
  sim::judge();
  switch (e.type)
  {
    case Result::frac:
    {
      std::string const got = text(r.n) + "/" + text(r.d);
      if (!e.q.defined())
      {
        if (r.d != 0) bad("undefined", got);
        return true;
      }
      auto const equals = [&](Q const& q) { return r.d != 0 && r.n * q.d == q.n * r.d; };
      if (kind == time_convert && r.v[0] != 1) bad("the original after converting back", "another value");
      if (kind == clock_read && r.v[0] != 1)
        bad("one reading of the underlying clock", std::to_string(r.v[0]));
      if (!equals(e.q) && !(e.has_alt && equals(e.alt))) bad(text(e.q), got);
      if (e.canonical && (r.d < 0 || igcd(r.n, r.d) != 1))
        bad(text(e.q) + " in lowest terms with a positive denominator", got);
      if (!e.any_parts && (r.n != e.parts.n || r.d != e.parts.d))
        bad("exactly " + text(e.parts.n) + "/" + text(e.parts.d), got);
      return true;
    }
    case Result::ints:
      if ((kind >= mix_make && kind <= mix_add_i) || kind == mix_parts || kind == mix_reps)
      {
        // whole, fractional parts (any representation of the right value)
        bool const ok = r.v[0] == e.v[0] && r.v[2] != 0
                        && i128(r.v[1]) * e.v[2] == i128(e.v[1]) * r.v[2];
        if (!ok)
          bad(text(e.v[0]) + " + " + text(e.v[1]) + "/" + text(e.v[2]),
              text(r.v[0]) + " + " + text(r.v[1]) + "/" + text(r.v[2]));
        if (r.v[3] != 1)
          bad("the mixed number to convert back to the same fraction", "another value");
      }
      else if (r.v[0] != e.v[0])
        bad(text(e.v[0]), text(r.v[0]));
      return true;
    case Result::bits:
      if (kind == to_float_ || kind == to_double_ || kind == to_long_double_)
      {
        long double got;
        std::memcpy(&got, r.text, sizeof got);
        if (!e.q.defined())
        {
          if (!std::isnan(got)) bad("NaN", std::to_string(got));
          return true;
        }
        long double const n = static_cast<long double>(e.q.n), d = static_cast<long double>(e.q.d);
        long double const want = kind == to_float_ ? static_cast<float>(n) / static_cast<float>(d)
                                 : kind == to_double_
                                   ? static_cast<double>(n) / static_cast<double>(d)
                                   : n / d;
        if (!(got == want)) bad(std::to_string(want), std::to_string(got));
        return true;
      }
      if (kind == format_)
      {
        std::string const want = text(e.parts.n) + "/" + text(e.parts.d);
        if (want != r.text) bad(want, r.text);
        return true;
      }
      if ((r.v[0] & e.mask) != (e.v[0] & e.mask))
      {
        char w[40], g[40];
        std::snprintf(w, sizeof w, "answers %#llx", static_cast<unsigned long long>(e.v[0] & e.mask));
        std::snprintf(g, sizeof g, "%#llx", static_cast<unsigned long long>(r.v[0] & e.mask));
        bad(w, g);
      }
      return true;
    default: break;
  }
  return true;
}

bool evaluate(Calc const& c, int kind, Args const& args, Result& r, char const* where)
{
  if (!c.supports(kind)) return false;
  Expect const e = expect(c, kind, args);
  if (!e.ok) return false;
  R const a = args.a ? c.load(*args.a) : R {};
  c.exec(kind, args, r);
  return judge(c, kind, args, e, a, r, where);
}

} // namespace calc
