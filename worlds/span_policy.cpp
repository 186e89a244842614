// -DPOLICY=safe ...
#include "policy.hpp"
#include "span.hpp"

#include <chrono>
#include <ieme/chrono.hpp>
#include <new>

namespace {

using namespace span;
using Ops = ieme::ops::POLICY;
using F = ieme::fraction<i64, Ops>;

struct Epoch {
  using rep = i64;
  using period = std::milli;
  using duration = std::chrono::milliseconds;
  using time_point = std::chrono::time_point<Epoch>;
  static constexpr bool is_steady = true;
};

using periods = std::tuple<std::ratio<1>, std::milli, std::ratio<60>, std::ratio<1, 3>,
                           std::ratio<1001, 30000>, std::ratio<1, 24>, std::ratio<7, 2>,
                           std::ratio<1, 90000>, std::nano, std::ratio<86400>>;
template <int I>
using D = ieme::chrono::duration<i64, std::tuple_element_t<I, periods>, Ops>;
template <int I>
using T = std::chrono::time_point<Epoch, D<I>>;

template <typename X>
auto in_lib(X&& f)
{
  sim::Lib guard;
  return f();
}

template <int I>
D<I> const& at(Value const& v)
{
  return *std::launder(reinterpret_cast<D<I> const*>(v.bytes));
}
template <int I>
D<I>& at(Value& v)
{
  return *std::launder(reinterpret_cast<D<I>*>(v.bytes));
}
template <int I>
T<I> tp(Value const& v)
{
  return T<I>(at<I>(v));
}
inline R parts(F const& f) { return {static_cast<i128>(f.num()), static_cast<i128>(f.den())}; }
template <typename X>
Out out(X const& d)
{
  return {parts(d.count()), X::period::num, X::period::den};
}

template <typename A, typename B>
int six(A const& a, B const& b)
{
  sim::Lib guard;
  return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5;
}

template <int I, int J>
Pair make_pair()
{
  Pair p;
  p.convert = [](Value const& a, int how) {
    Value v;
    D<J> const d = in_lib([&]() -> D<J> {
      switch (how % 3)
      {
        case 0: return D<J>(at<I>(a));
        case 1: return std::chrono::duration_cast<D<J>>(at<I>(a));
        default: return T<J>(tp<I>(a)).time_since_epoch();
      }
    });
    ::new (static_cast<void*>(v.bytes)) D<J>(d);
    return v;
  };
  p.add = [](Value const& a, Value const& b, int how) {
    switch (how % 3)
    {
      case 0: return out(in_lib([&] { return at<I>(a) + at<J>(b); }));
      case 1: return out(in_lib([&] { return tp<I>(a) + at<J>(b); }).time_since_epoch());
      default: return out(in_lib([&] { return at<I>(a) + tp<J>(b); }).time_since_epoch());
    }
  };
  p.sub = [](Value const& a, Value const& b, int how) {
    switch (how % 3)
    {
      case 0: return out(in_lib([&] { return at<I>(a) - at<J>(b); }));
      case 1: return out(in_lib([&] { return tp<I>(a) - at<J>(b); }).time_since_epoch());
      default: return out(in_lib([&] { return tp<I>(a) - tp<J>(b); }));
    }
  };
  p.add_to = [](Value& a, Value const& b, int how) {
    if (how % 2) in_lib([&] { return (at<I>(a) += at<J>(b)).count().num(); });
    else
    {
      T<I> t = tp<I>(a);
      in_lib([&] { return (t += at<J>(b)).time_since_epoch().count().num(); });
      at<I>(a) = t.time_since_epoch();
    }
  };
  p.sub_from = [](Value& a, Value const& b, int how) {
    if (how % 2) in_lib([&] { return (at<I>(a) -= at<J>(b)).count().num(); });
    else
    {
      T<I> t = tp<I>(a);
      in_lib([&] { return (t -= at<J>(b)).time_since_epoch().count().num(); });
      at<I>(a) = t.time_since_epoch();
    }
  };
  p.ratio = [](Value const& a, Value const& b) {
    return parts(in_lib([&] { return at<I>(a) / at<J>(b); }));
  };
  p.rem = [](Value const& a, Value const& b) {
    return out(in_lib([&] { return at<I>(a) % at<J>(b); }));
  };
  p.cmp = [](Value const& a, Value const& b, int how) {
    return how % 2 ? six(tp<I>(a), tp<J>(b)) : six(at<I>(a), at<J>(b));
  };
  p.cmp_ticks = [](Value const& a, i64 ticks, int how) {
    F const f = in_lib([&] { return D<J>(at<I>(a)).count(); });
    return how % 2 ? six(ticks, f) : six(f, ticks);
  };
  return p;
}

template <int I, typename X>
Out with_whole(Value const& a, i64 k, int how, X&& x)
{
  if (how % 2) return out(in_lib([&] { return x(at<I>(a), std::chrono::seconds(k)); }));
  return out(in_lib([&] { return x(at<I>(a), std::chrono::milliseconds(k)); }));
}

template <int I>
One make_one()
{
  One o;
  o.make = [](Value& v, i128 n, i128 d) {
    ::new (static_cast<void*>(v.bytes)) D<I>(F(static_cast<i64>(n), static_cast<i64>(d)));
  };
  o.count = [](Value const& v) { return parts(at<I>(v).count()); };
  o.scale = [](Value const& a, i64 k, int how) {
    D<I> d = at<I>(a);
    switch (how % 3)
    {
      case 0: return parts(in_lib([&] { return d * k; }).count());
      case 1: return parts(in_lib([&] { return k * d; }).count());
      default: in_lib([&] { return (d *= F(k)).count().num(); }); return parts(d.count());
    }
  };
  o.scale_by = [](Value const& a, i128 n, i128 m, int how) {
    D<I> d = at<I>(a);
    F const f(static_cast<i64>(n), static_cast<i64>(m));
    switch (how % 3)
    {
      case 0: return parts(in_lib([&] { return d * f; }).count());
      case 1: return parts(in_lib([&] { return f * d; }).count());
      default: in_lib([&] { return (d *= f).count().num(); }); return parts(d.count());
    }
  };
  o.divide = [](Value const& a, i64 k, int how) {
    D<I> d = at<I>(a);
    if (how % 2) return parts(in_lib([&] { return d / k; }).count());
    in_lib([&] { return (d /= F(k)).count().num(); });
    return parts(d.count());
  };
  o.divide_by = [](Value const& a, i128 n, i128 m, int how) {
    D<I> d = at<I>(a);
    F const f(static_cast<i64>(n), static_cast<i64>(m));
    if (how % 2) return parts(in_lib([&] { return d / f; }).count());
    in_lib([&] { return (d /= f).count().num(); });
    return parts(d.count());
  };
  o.rem_by = [](Value const& a, i64 k) { return parts(in_lib([&] { return at<I>(a) % k; }).count()); };
  o.neg = [](Value const& a) { return parts(in_lib([&] { return -at<I>(a); }).count()); };
  o.abs = [](Value const& a) { return parts(in_lib([&] { return std::chrono::abs(at<I>(a)); }).count()); };
  o.add_whole = [](Value const& a, i64 k, int how) {
    return how & 2 ? with_whole<I>(a, k, how, [](auto const& x, auto const& y) { return x + y; })
                   : with_whole<I>(a, k, how, [](auto const& x, auto const& y) { return y + x; });
  };
  o.sub_whole = [](Value const& a, i64 k, int how) {
    return with_whole<I>(a, k, how, [](auto const& x, auto const& y) { return x - y; });
  };
  o.cmp_whole = [](Value const& a, i64 k, int how) {
    return how % 2 ? six(at<I>(a), std::chrono::seconds(k)) : six(at<I>(a), std::chrono::milliseconds(k));
  };
  // (a policy other than the default cannot be named: the overloads for
  // durations and for time points get in each other's way)
  o.from_whole = [](i64 k, int how) {
    using period = std::tuple_element_t<I, periods>;
    auto const run = [how]<typename X>(X x) {
      if (how % 2 == 0)
      {
        auto const d = in_lib([&] { return ieme::chrono::to_fractional(x); });
        return R {static_cast<i128>(d.count().num()), static_cast<i128>(d.count().den())};
      }
      std::chrono::time_point<Epoch, X> const at(x);
      auto const c = in_lib([&] { return ieme::chrono::to_fractional(at); }).time_since_epoch().count();
      return R {static_cast<i128>(c.num()), static_cast<i128>(c.den())};
    };
    if (how >= 4) return run(std::chrono::duration<std::int32_t, period>(static_cast<std::int32_t>(k)));
    return run(std::chrono::duration<i64, period>(k));
  };
  return o;
}

template <int I, int... J>
void fill_row(Table& t, std::integer_sequence<int, J...>)
{
  t.one[I] = make_one<I>();
  ((t.pair[I][J] = make_pair<I, J>()), ...);
}
template <int... I>
void fill(Table& t, std::integer_sequence<int, I...> s)
{
  (fill_row<I>(t, s), ...);
}

Table const& table()
{
  static Table const t = [] {
    Table x;
    x.policy = policy_of<Ops>();
    fill(x, std::make_integer_sequence<int, units>());
    return x;
  }();
  return t;
}
Register const registration(table());

} // namespace
