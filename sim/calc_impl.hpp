// Instantiates the library behind calc::Calc. Compiled with instrumentation.
#pragma once
#include "calc.hpp"
#include "threads.hpp"

#include <cstring>
#include <ieme/ieme.hpp>
#include <ieme/chrono.hpp>
#include <ieme/fraction_literals.hpp>
#include <ieme/hash.hpp>

#include <chrono>
#include <new>
#include <numeric>
#include <sstream>
#include <streambuf>

namespace calc {

// A fixed buffer for formatting and parsing without a heap.
struct FixedBuf : std::streambuf {
  explicit FixedBuf(char* p, size_t n) { setp(p, p + n); setg(p, p, p + n); }
  size_t written() const { return static_cast<size_t>(pptr() - pbase()); }
};

template <typename F>
inline decltype(auto) in_lib(F&& f)
{
  sim::Lib guard;
  return f();
}

struct alignas(64) ThreadClockCell {
  std::int64_t reading;
  int reads;
};

// The clock under clock_wrapper: every thread has its own scripted reading.
struct ThreadClock {
  using rep = std::int64_t;
  using period = std::milli;
  using duration = std::chrono::duration<rep, period>;
  using time_point = std::chrono::time_point<ThreadClock>;
  static constexpr bool is_steady = true;
  using Cell = ThreadClockCell;
  static inline Cell cells[32] = {}; // per thread and interrupt level
  static Cell& mine() { return cells[(sim::current_thread() + 1) * 4 + sim::interrupt_level()]; }
  static time_point now() noexcept
  {
    ++mine().reads;
    return time_point(duration(mine().reading));
  }
};

template <typename Ops>
constexpr model::Policy policy_of()
{
  using namespace ieme::ops;
  if (std::is_same_v<Ops, safe>) return {true, false, false, "safe"};
  if (std::is_same_v<Ops, safe_reduced_i>) return {true, true, false, "safe_reduced_i"};
  if (std::is_same_v<Ops, safe_reduced_o>) return {true, false, true, "safe_reduced_o"};
  if (std::is_same_v<Ops, safe_reduced_io>) return {true, true, true, "safe_reduced_io"};
  if (std::is_same_v<Ops, fast>) return {false, false, false, "fast"};
  if (std::is_same_v<Ops, fast_reduced_i>) return {false, true, false, "fast_reduced_i"};
  if (std::is_same_v<Ops, fast_reduced_o>) return {false, false, true, "fast_reduced_o"};
  return {false, true, true, "fast_reduced_io"};
}

template <typename Rep, typename Ops>
struct Impl {
  using F = ieme::fraction<Rep, Ops>;
  static_assert(sizeof(F) <= sizeof(Slot));
  static constexpr bool is_signed = std::is_signed_v<Rep>;
  static constexpr bool is_long = std::is_same_v<Rep, std::int64_t>;
  static constexpr bool is_default = std::is_same_v<Ops, ieme::ops::defaults>;
  using Other = std::conditional_t<is_long, int, std::int64_t>;

  static F& at(Slot& s) { return *std::launder(reinterpret_cast<F*>(s.bytes)); }
  static F const& at(Slot const& s) { return *std::launder(reinterpret_cast<F const*>(s.bytes)); }

  static void store(Slot& s, i128 n, i128 d)
  {
    F f;
    f.numerator() = static_cast<Rep>(n);
    f.denominator() = static_cast<Rep>(d);
    ::new (static_cast<void*>(s.bytes)) F(f);
  }
  static model::R load(Slot const& s)
  {
    F const& f = at(s);
    return {static_cast<i128>(f.numerator()), static_cast<i128>(f.denominator())};
  }

  template <typename R2, typename O2>
  static void put(Result& r, ieme::fraction<R2, O2> const& f)
  {
    r.type = Result::frac;
    r.n = static_cast<i128>(f.numerator());
    r.d = static_cast<i128>(f.denominator());
  }
  template <typename W, typename P>
  static void put_mixed(Result& r, ieme::mixed_number<W, P, Ops> const& m)
  {
    r.type = Result::ints;
    r.v[0] = static_cast<i64>(m.whole());
    r.v[1] = static_cast<i64>(m.fractional().numerator());
    r.v[2] = static_cast<i64>(m.fractional().denominator());
    r.v[3] = 1;
  }
  static void put_int(Result& r, i64 v)
  {
    r.type = Result::ints;
    r.v[0] = v;
  }
  static void put_bits(Result& r, i64 v)
  {
    r.type = Result::bits;
    r.v[0] = v;
  }
  template <typename L, typename R2>
  static i64 six(L const& a, R2 const& b)
  {
    i64 v = 0;
    v |= in_lib([&] { return a == b; }) << 0;
    v |= in_lib([&] { return a != b; }) << 1;
    v |= in_lib([&] { return a < b; }) << 2;
    v |= in_lib([&] { return a <= b; }) << 3;
    v |= in_lib([&] { return a > b; }) << 4;
    v |= in_lib([&] { return a >= b; }) << 5;
    return v;
  }

  // l op r and r op l for the five arithmetic operators
  template <typename L, typename R2>
  static void ten(Result& res, int mode, L const& l, R2 const& r)
  {
    switch (mode)
    {
      case 0: put(res, in_lib([&] { return l + r; })); break;
      case 1: put(res, in_lib([&] { return l - r; })); break;
      case 2: put(res, in_lib([&] { return l * r; })); break;
      case 3: put(res, in_lib([&] { return l / r; })); break;
      case 4: put(res, in_lib([&] { return l % r; })); break;
      case 5: put(res, in_lib([&] { return r + l; })); break;
      case 6: put(res, in_lib([&] { return r - l; })); break;
      case 7: put(res, in_lib([&] { return r * l; })); break;
      case 8: put(res, in_lib([&] { return r / l; })); break;
      default: put(res, in_lib([&] { return r % l; })); break;
    }
  }

  static bool supports(int kind)
  {
    switch (kind)
    {
      case literal_: return is_default;
      case dec_literal: return is_default && is_long;
      case time_convert:
      case time_arith:
      case time_whole:
      case clock_read: return is_long;
      default: return true;
    }
  }

  static void exec(int kind, Args const& x, Result& r)
  {
    using namespace ieme;
    static F const dummy {};
    F const& a = x.a ? at(*x.a) : dummy;
    F const& b = x.b ? at(*x.b) : dummy;
    Rep const i = static_cast<Rep>(x.i);
    switch (kind)
    {
#define BINARY(name, op, opeq)                                                           \
  case name##_ff: put(r, in_lib([&] { return a op b; })); break;                         \
  case name##_fi: put(r, in_lib([&] { return a op i; })); break;                         \
  case name##_if: put(r, in_lib([&] { return i op a; })); break;                         \
  case c##name##_ff: in_lib([&] { at(*x.a) opeq b; }); put(r, a); break;                 \
  case c##name##_fi: in_lib([&] { at(*x.a) opeq i; }); put(r, a); break;
      BINARY(add, +, +=)
      BINARY(sub, -, -=)
      BINARY(mul, *, *=)
      BINARY(div, /, /=)
      BINARY(mod, %, %=)
#undef BINARY
      case cmp_ff: put_bits(r, six(a, b)); break;
      case cmp_fi: put_bits(r, six(a, i)); break;
      case cmp_if: put_bits(r, six(i, a)); break;
      case negate: put(r, in_lib([&] { return -a; })); break;
      case promote: put(r, in_lib([&] { return +a; })); break;
      case abs_: put(r, in_lib([&] { return abs(a); })); break;
      case reciprocal_: put(r, in_lib([&] { return x.mode % 2 ? F(reciprocal(a.raw())) : reciprocal(a); })); break;
      case normalize_: put(r, in_lib([&] { return x.mode % 2 ? F(normalize_signs(a.raw())) : normalize_signs(a); })); break;
      case reduce_:
        put(r, in_lib([&] {
              switch (x.mode % 4)
              {
                case 0: return reduce(a);
                case 1: return reduce_normalize_signs(a);
                case 2: return F(reduce(a.raw()));
                default: return F(reduce_normalize_signs(a.raw()));
              }
            }));
        break;
      case reduce_signs:
        put(r, in_lib([&] {
              switch (x.mode % 4)
              {
                case 0: return reduce(a, reduce_mode::ignore_signs);
                case 1: return reduce_ignore_signs(a);
                case 2: return F(reduce(a.raw(), reduce_mode::ignore_signs));
                default: return F(reduce_ignore_signs(a.raw()));
              }
            }));
        break;
      case construct:
        switch (x.mode % 4)
        {
          case 0: put(r, in_lib([&] { return F(a.num(), a.den()); })); break;
          case 1: put(r, in_lib([&] { return F(a.raw()); })); break;
          case 2: put(r, in_lib([&] { return fraction<std::int64_t, Ops>(a); })); break;
          default:
            put(r, in_lib([&] {
                  return fraction<Rep, Ops>(fraction<Rep, ops::fast>(fraction<Rep, ops::safe>(a)));
                }));
        }
        break;
      case mixed_rep:
      {
        auto const o = fraction<Other, Ops>(static_cast<Other>(b.num()), static_cast<Other>(b.den()));
        ten(r, x.mode, a, o);
        break;
      }
      case mixed_rep_i: ten(r, x.mode, a, static_cast<Other>(x.i)); break;
      case mixed_rep_cmp:
      {
        auto const o = fraction<Other, Ops>(static_cast<Other>(b.num()), static_cast<Other>(b.den()));
        auto const oi = static_cast<Other>(x.i);
        switch (x.mode % 4)
        {
          case 0: put_bits(r, six(a, o)); break;
          case 1: put_bits(r, six(o, a)); break;
          case 2: put_bits(r, six(a, oi)); break;
          default: put_bits(r, six(oi, a)); break;
        }
        break;
      }
      case mixed_rep_assign:
      {
        auto const o = fraction<Other, Ops>(static_cast<Other>(b.num()), static_cast<Other>(b.den()));
        auto const oi = static_cast<Other>(x.i);
        F& t = at(*x.a);
        in_lib([&] {
          switch (x.mode)
          {
            case 0: t += o; break;
            case 1: t -= o; break;
            case 2: t *= o; break;
            case 3: t /= o; break;
            case 4: t %= o; break;
            case 5: t += oi; break;
            case 6: t -= oi; break;
            case 7: t *= oi; break;
            case 8: t /= oi; break;
            default: t %= oi; break;
          }
        });
        put(r, a);
        break;
      }
      case literal_div:
      {
        auto const v = static_cast<unsigned long long>(model::iabs(b.den()));
        denominator_literal<false, Ops> const d(v);
        switch (x.mode % 4)
        {
          case 0: put(r, in_lib([&] { return a / d; })); break;
          case 1:
            if constexpr (is_signed) put(r, in_lib([&] { return a / -d; }));
            break;
          case 2: put(r, in_lib([&] { return i / +d; })); break;
          default:
            if constexpr (is_signed) put(r, in_lib([&] { return i / -d; }));
            break;
        }
        break;
      }
      case dec_literal:
        if constexpr (is_default && is_long)
          put(r, in_lib([&] { return literals::fraction_literals::operator""_dec(x.text); }));
        break;
      case trunc_: put_int(r, static_cast<i64>(in_lib([&] { return trunc(a); }))); break;
      case ceil_: put_int(r, static_cast<i64>(in_lib([&] { return ceil(a); }))); break;
      case floor_: put_int(r, static_cast<i64>(in_lib([&] { return floor(a); }))); break;
      case round_: put_int(r, static_cast<i64>(in_lib([&] { return round(a); }))); break;
      case to_whole_:
        put_int(r, static_cast<i64>(in_lib([&] {
                  return x.mode == 7 ? to_whole(a) : to_whole(a, static_cast<round_mode>(x.mode % 4));
                })));
        break;
      case redenominate_:
        if (x.mode < 4)
          put(r, in_lib([&] {
                return x.mode == 3 ? redenominate(a, i)
                                   : redenominate(a, i, static_cast<round_mode>(x.mode));
              }));
        else
          switch (x.mode % 4)
          {
            case 0: put(r, in_lib([&] { return trunc_redenominate(a, i); })); break;
            case 1: put(r, in_lib([&] { return ceil_redenominate(a, i); })); break;
            case 2: put(r, in_lib([&] { return floor_redenominate(a, i); })); break;
            default: put(r, in_lib([&] { return round_redenominate(a, i); })); break;
          }
        break;
      case pow2_: put(r, in_lib([&] { return pow2<Rep, Ops>(static_cast<int>(x.i)); })); break;
      case pow_: put(r, in_lib([&] { return pow<Rep, Ops>(i, x.mode); })); break;
      case queries:
      {
        i64 v = 0;
        int k = 0;
        auto const q = [&](bool yes) { v |= i64(yes) << k++; };
        auto const ask = [&](auto const& u) {
          q(in_lib([&] { return is_defined(u); }));
          q(in_lib([&] { return is_undefined(u); }));
          q(in_lib([&] { return is_positive(u); }));
          q(in_lib([&] { return is_non_negative(u); }));
          q(in_lib([&] { return is_zero(u); }));
          q(in_lib([&] { return is_non_positive(u); }));
          q(in_lib([&] { return is_negative(u); }));
          q(in_lib([&] { return is_integer(u); }));
          q(in_lib([&] { return is_unit_fraction(u); }));
          q(in_lib([&] { return is_reduced_ignore_signs(u); }));
          q(in_lib([&] { return is_reduced(u); }));
          q(in_lib([&] { return is_proper(u); }));
          q(in_lib([&] { return is_improper(u); }));
        };
        if (x.mode % 4 == 3) ask(a.raw());
        else ask(a);
        put_bits(r, v);
        break;
      }
      case identical:
        if (x.mode % 2)
          put_bits(r, i64(in_lib([&] { return are_identical(a, b); }))
                        | i64(in_lib([&] { return are_different(a, b); })) << 1);
        else
          put_bits(r, i64(in_lib([&] { return are_identical(a.raw(), b.raw()); }))
                        | i64(in_lib([&] { return are_different(a.raw(), b.raw()); })) << 1);
        break;
      case hash_:
      {
        auto const g = static_cast<Rep>(model::igcd(a.num(), a.den()));
        Rep n = a.num() / g, d = a.den() / g;
        if (d < 0)
        {
          n = -n;
          d = -d;
        }
        F const low(n, d);
        auto const h1 = in_lib([&] { return std::hash<F>()(a); });
        auto const h2 = in_lib([&] { return x.mode % 2 ? ieme::hash(low) : std::hash<F>()(low); });
        put_bits(r, h1 == h2);
        r.v[1] = static_cast<i64>(h1);
        break;
      }
      case to_float_:
      case to_double_:
      case to_long_double_:
      {
        long double const v = kind == to_float_
                                ? static_cast<long double>(in_lib([&] { return to_float(a); }))
                              : kind == to_double_
                                ? static_cast<long double>(in_lib([&] { return to_double(a); }))
                                : in_lib([&] { return to_long_double(a); });
        r.type = Result::bits;
        std::memcpy(r.text, &v, sizeof v);
        break;
      }
      case from_float:
        put(r, in_lib([&] { return to_fraction<Rep, Ops>(static_cast<float>(x.real)); }));
        break;
      case from_double: put(r, in_lib([&] { return to_fraction<Rep, Ops>(x.real); })); break;
      case from_text:
        put(r, in_lib([&] {
              return floating_point_string_to_fraction<Rep, Ops>(std::string_view(x.text, x.text_len));
            }));
        break;
      case format_:
      {
        FixedBuf buf(r.text, sizeof r.text - 1);
        std::ostream os(&buf);
        in_lib([&] {
          if (x.mode % 2) os << a;
          else os << a.raw();
        });
        r.text[buf.written()] = 0;
        put_bits(r, 1);
        break;
      }
      case parse_:
      {
        char text[64];
        FixedBuf buf(text, sizeof text);
        std::ostream os(&buf);
        os << a.num() << '/' << a.den();
        FixedBuf in(text, buf.written());
        std::istream is(&in);
        if (x.mode % 2)
        {
          F f;
          in_lib([&] { is >> f; });
          put(r, f);
        }
        else
        {
          raw_fraction<Rep> f;
          in_lib([&] { is >> f; });
          put(r, F(f));
        }
        if (is.fail()) r.d = r.n = 0;
        break;
      }
      case literal_:
        if constexpr (is_default)
        {
          if (x.mode % 2)
          {
            // what i / d_fr evaluates
            denominator_literal<false> const d = literals::fraction_literals::operator""_fr(
              static_cast<unsigned long long>(a.den()));
            put(r, in_lib([&] { return i / d; }));
          }
          else
          {
            auto const d = +denominator_literal<false>(static_cast<unsigned long long>(a.den()));
            put(r, in_lib([&] { return i / d; }));
          }
        }
        break;
      case ratio_:
        if (x.mode % 2) put(r, in_lib([&] { return F(std::ratio<1001, 30000>()); }));
        else put(r, in_lib([&] { return F(std::milli()); }));
        break;
      case mix_make:
      {
        auto const m = in_lib([&] { return mixed_number<Rep, Rep, Ops>(a); });
        put_mixed(r, m);
        F const back = in_lib([&] { return x.mode % 2 ? m.as_fraction() : static_cast<F>(m); });
        r.v[3] = i128(back.num()) * a.den() == i128(a.num()) * back.den() && back.den() != 0;
        break;
      }
      case mix_neg:
        if constexpr (is_signed)
          put_mixed(r, in_lib([&] { return -mixed_number<Rep, Rep, Ops>(a); }));
        break;
      case mix_add:
      {
        auto const m = mixed_number<Rep, Rep, Ops>(a), n = mixed_number<Rep, Rep, Ops>(b);
        put_mixed(r, in_lib([&] { return m + n; }));
        break;
      }
      case mix_add_f:
      {
        auto const m = mixed_number<Rep, Rep, Ops>(a);
        put_mixed(r, in_lib([&] { return x.mode % 2 ? m + b : b + m; }));
        break;
      }
      case mix_add_i:
      {
        auto const m = mixed_number<Rep, Rep, Ops>(a);
        put_mixed(r, in_lib([&] { return x.mode % 2 ? m + i : i + m; }));
        break;
      }
      case mix_parts:
        put_mixed(r, in_lib([&] { return mixed_number<Rep, Rep, Ops>(i, b); }));
        break;
      case mix_reps:
        if (x.mode % 2)
        {
          auto const o = fraction<Other, Ops>(static_cast<Other>(b.num()), static_cast<Other>(b.den()));
          auto const m = mixed_number<Rep, Rep, Ops>(a);
          auto const n = mixed_number<Other, Other, Ops>(o);
          if (x.mode & 2) put_mixed(r, in_lib([&] { return m + n; }));
          else put_mixed(r, in_lib([&] { return n + m; }));
        }
        else
        {
          auto const m = in_lib([&] { return mixed_number<Rep, Other, Ops>(a); });
          put_mixed(r, m);
          auto const back = in_lib([&] { return m.as_fraction(); });
          r.v[3] = i128(back.num()) * a.den() == i128(a.num()) * back.den() && back.den() != 0;
        }
        break;
      case mix_hash:
      {
        auto const g = static_cast<Rep>(model::igcd(a.num(), a.den()));
        Rep n = a.num() / g, d = a.den() / g;
        if (d < 0)
        {
          n = -n;
          d = -d;
        }
        auto const m1 = mixed_number<Rep, Rep, Ops>(a), m2 = mixed_number<Rep, Rep, Ops>(F(n, d));
        auto const h1 = in_lib([&] { return std::hash<mixed_number<Rep, Rep, Ops>>()(m1); });
        auto const h2 = in_lib([&] { return ieme::hash(m2); });
        put_bits(r, h1 == h2);
        r.v[1] = static_cast<i64>(h1);
        break;
      }
      case time_whole:
        if constexpr (is_long)
        {
          using W = std::chrono::duration<Rep, std::milli>;
          using S = ieme::chrono::duration<Rep, std::ratio<1>, Ops>;
          W const w(x.i);
          switch (x.mode % 4)
          {
            case 0:
              if constexpr (is_default) put(r, in_lib([&] { return ieme::chrono::to_fractional(w); }).count());
              else put(r, in_lib([&] { return ieme::chrono::duration_like<W, Ops>(w); }).count());
              break;
            case 1:
            {
              std::chrono::time_point<ThreadClock, W> const t(w);
              using T = std::chrono::time_point<ThreadClock, W>;
              if constexpr (is_default)
                put(r, in_lib([&] { return ieme::chrono::to_fractional(t); }).time_since_epoch().count());
              else
                put(r, in_lib([&] { return ieme::chrono::time_point_like<T, Ops>(t); }).time_since_epoch().count());
              break;
            }
            case 2: put(r, in_lib([&] { return S(w); }).count()); break;
            default:
              put(r, in_lib([&] { return S(std::chrono::duration<Rep, std::ratio<60>>(x.i)); }).count());
          }
        }
        break;
      case time_convert:
        if constexpr (is_long)
        {
          using S = ieme::chrono::duration<Rep, std::ratio<1>, Ops>;
          S const s(a);
          auto const via = [&](auto unit) {
            using U = ieme::chrono::duration<Rep, decltype(unit), Ops>;
            U const u = in_lib([&] { return U(s); });
            S const back = in_lib([&] { return S(u); });
            put(r, u.count());
            r.v[0] = i128(back.count().num()) * a.den() == i128(a.num()) * back.count().den()
                     && back.count().den() != 0;
          };
          switch (x.mode % 4)
          {
            case 0: via(std::milli()); break;
            case 1: via(std::ratio<60>()); break;
            case 2: via(std::ratio<1, 24>()); break;
            default: via(std::micro()); break;
          }
        }
        break;
      case time_arith:
        if constexpr (is_long)
        {
          using S = ieme::chrono::duration<Rep, std::ratio<1>, Ops>;
          using M = ieme::chrono::duration<Rep, std::milli, Ops>;
          S const s(a);
          M const m(b);
          M const t = in_lib([&] { return M(s + m); });
          put(r, t.count());
        }
        break;
      case clock_read:
        if constexpr (is_long)
        {
          using W = ieme::chrono::clock_wrapper<ThreadClock, std::ratio<1>, Ops>;
          auto& cell = ThreadClock::mine();
          cell.reading = x.i;
          cell.reads = 0;
          auto const t = in_lib([&] { return W::now(); });
          put(r, t.time_since_epoch().count());
          r.v[0] = cell.reads;
        }
        break;
      default: break;
    }
  }

  static Calc make(char const* name)
  {
    Calc c {};
    c.name = name;
    c.policy = policy_of<Ops>();
    c.limits = {static_cast<i128>(std::numeric_limits<Rep>::max()), is_signed};
    c.rep_bits = std::numeric_limits<Rep>::digits;
    c.default_policy = is_default;
    c.is_long = is_long;
    c.store = store;
    c.load = load;
    c.exec = exec;
    c.supports = supports;
    return c;
  }
};

} // namespace calc

#define CALC_INSTANCE(rep_, policy_, label_) CALC_INSTANCE_(rep_, policy_, label_)
#ifdef CALC_WITHOUT_INITIALISERS
// No static objects of the harness: what initialisers there are belong to the
// library, and the world runs them when it likes.
#define CALC_INSTANCE_(rep_, policy_, label_)                                            \
  extern "C" void calc_make_##policy_##_##label_(calc::Calc* to)                         \
  {                                                                                      \
    *to = calc::Impl<rep_, ieme::ops::policy_>::make(#policy_ "<" #label_ ">");          \
  }
#else
#define CALC_INSTANCE_(rep_, policy_, label_)                                            \
  static calc::Calc const calc_##policy_##_##label_                                      \
    = calc::Impl<rep_, ieme::ops::policy_>::make(#policy_ "<" #label_ ">");              \
  static calc::Register const register_##policy_##_##label_(calc_##policy_##_##label_);
#endif
