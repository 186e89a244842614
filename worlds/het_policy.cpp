// -DPOLICY=safe ...
#include "het.hpp"
#include "policy.hpp"

#include <cstring>
#include <ieme/ieme.hpp>
#include <istream>
#include <new>
#include <ostream>
#include <streambuf>
#include <tuple>

namespace {

using namespace het;
namespace pol {
using namespace ieme::ops;
using safe_normalizing_i = reduced_input<safe, ieme::reduce_mode::normalize_signs>;
using fast_ignoring_o = reduced_output<fast, ieme::reduce_mode::ignore_signs>;
} // namespace pol
using Policies = std::tuple<pol::safe, pol::safe_reduced_i, pol::safe_reduced_o, pol::safe_reduced_io, pol::fast,
                            pol::fast_reduced_i, pol::fast_reduced_o, pol::fast_reduced_io, pol::safe_normalizing_i,
                            pol::fast_ignoring_o>;
static_assert(std::tuple_size_v<Policies> == policies);
using Ops = pol::POLICY;
template <int P>
using policy_at = std::tuple_element_t<P, Policies>;

using Reps = std::tuple<int, long, unsigned, unsigned long, long long>;
template <int I>
using rep_at = std::tuple_element_t<I, Reps>;
template <int I, typename O = Ops>
using F = ieme::fraction<rep_at<I>, O>;

template <typename X>
auto in_lib(X&& f)
{
  sim::Lib guard;
  return f();
}
template <typename T>
T const& as(Val const& v) { return *std::launder(reinterpret_cast<T const*>(v.bytes)); }
template <typename T>
T& as(Val& v) { return *std::launder(reinterpret_cast<T*>(v.bytes)); }
template <typename T>
Val val(T const& f)
{
  Val v;
  ::new (static_cast<void*>(v.bytes)) T(f);
  return v;
}
template <typename T>
R parts(T const& f) { return {static_cast<i128>(f.num()), static_cast<i128>(f.den())}; }

template <typename A, typename B>
Result calculate(A const& a, B const& b, int op)
{
  auto const out = [](auto const& f) {
    using rep = typename std::decay_t<decltype(f)>::rep_type;
    return Result {parts(f), sizeof(rep), std::is_signed_v<rep>};
  };
  switch (op)
  {
    case 0: return out(in_lib([&] { return a + b; }));
    case 1: return out(in_lib([&] { return a - b; }));
    case 2: return out(in_lib([&] { return a * b; }));
    case 3: return out(in_lib([&] { return a / b; }));
    default: return out(in_lib([&] { return a % b; }));
  }
}
template <typename A, typename B>
int six(A const& a, B const& b)
{
  sim::Lib guard;
  return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5;
}
template <typename A, typename B>
void modify(A& a, B const& b, int op)
{
  sim::Lib guard;
  switch (op)
  {
    case 0: a += b; break;
    case 1: a -= b; break;
    case 2: a *= b; break;
    case 3: a /= b; break;
    default: a %= b; break;
  }
}

template <int I, int J>
Pair make_pair()
{
  using A = F<I>;
  using B = F<J>;
  Pair p;
  p.arith = [](Val const& a, Val const& b, int op, int how) {
    switch (how)
    {
      case 0: return calculate(as<A>(a), as<B>(b), op);
      case 1: return calculate(as<A>(a), as<B>(b).num(), op);
      default: return calculate(as<A>(a).num(), as<B>(b), op);
    }
  };
  p.cmp = [](Val const& a, Val const& b, int how) {
    switch (how)
    {
      case 0: return six(as<A>(a), as<B>(b));
      case 1: return six(as<A>(a), as<B>(b).num());
      default: return six(as<A>(a).num(), as<B>(b));
    }
  };
  p.assign = [](Val& a, Val const& b, int op, int how) {
    if (how == 0) modify(as<A>(a), as<B>(b), op);
    else modify(as<A>(a), as<B>(b).num(), op);
  };
  p.convert = [](Val const& a, int how) {
    return val(in_lib([&]() -> B {
      A const& f = as<A>(a);
      switch (how % 4)
      {
        case 0: return f;
        case 1: return static_cast<B>(f);
        case 2: return B(ieme::raw_fraction<rep_at<J>>(f.raw()));
        default:
        {
          B g(7);
          g = f;
          return g;
        }
      }
    }));
  };
  p.mixed = [](Val const& a, int how) {
    A const& f = as<A>(a);
    using M = ieme::mixed_number<rep_at<J>, rep_at<I>, Ops>;
    using G = ieme::fraction<std::common_type_t<rep_at<I>, rep_at<J>>, Ops>;
    M const m = in_lib([&] { return how & 1 ? M(f) : M(0, f); });
    G const g = in_lib([&]() -> G {
      if (how & 2) return m;
      return m.as_fraction();
    });
    return Mixed {static_cast<i128>(m.whole()), parts(m.fractional()), parts(g)};
  };
  return p;
}

template <int I>
One make_one()
{
  using A = F<I>;
  One o;
  o.store = [](R r) { return val(A(static_cast<rep_at<I>>(r.n), static_cast<rep_at<I>>(r.d))); };
  o.load = [](Val const& v) { return parts(as<A>(v)); };
  struct Buf : std::streambuf {
    Buf(char* p, unsigned n) { setp(p, p + n); setg(p, p, p + n); }
    unsigned written() const { return static_cast<unsigned>(pptr() - pbase()); }
  };
  o.write = [](Val const& v, char* to, unsigned size) {
    Buf buf(to, size);
    std::ostream os(&buf);
    in_lib([&] { os << as<A>(v); return 0; });
    return os.good() ? buf.written() : 0u;
  };
  o.read = [](Val& v, char const* from, unsigned size) {
    char text[64];
    std::memcpy(text, from, size);
    Buf buf(text, size);
    std::istream is(&buf);
    A f;
    in_lib([&] { is >> f; return 0; });
    v = val(f);
    return !is.fail();
  };
  o.to_double = [](Val const& v) { return in_lib([&] { return ieme::to_double(as<A>(v)); }); };
  o.from_double = [](double d) { return val(in_lib([&] { return ieme::to_fraction<rep_at<I>, Ops>(d); })); };
  return o;
}

template <int P, int I, int J>
Val import(Val const& a, int how)
{
  using A = F<I, policy_at<P>>;
  using B = F<J>;
  return val(in_lib([&]() -> B {
    A const& f = as<A>(a);
    switch (how % 3)
    {
      case 0: return B(f);
      case 1: return static_cast<B>(f);
      default: return B(ieme::raw_fraction<rep_at<J>>(f.raw()));
    }
  }));
}

template <int I, int J, int... P>
void fill_import(Table& t, std::integer_sequence<int, P...>)
{
  ((t.import[P][I][J] = import<P, I, J>), ...);
}
template <int I, int... J>
void fill_row(Table& t, std::integer_sequence<int, J...>)
{
  t.one[I] = make_one<I>();
  ((t.pair[I][J] = make_pair<I, J>()), ...);
  (fill_import<I, J>(t, std::make_integer_sequence<int, policies>()), ...);
}
template <int... I>
void fill(Table& t, std::integer_sequence<int, I...> s)
{
  (fill_row<I>(t, s), ...);
}
template <int... P>
int index_of(std::integer_sequence<int, P...>)
{
  int k = 0;
  ((std::is_same_v<Ops, policy_at<P>> ? void(k = P) : void()), ...);
  return k;
}

Table const& table()
{
  static Table const t = [] {
    Table x;
    x.index = index_of(std::make_integer_sequence<int, policies>());
    x.sign_normalized = true;
    if (x.index < 8) x.policy = policy_of<Ops>();
    else if (x.index == 8) x.policy = {true, true, false, "safe_normalizing_i"};
    else
    {
      x.policy = {false, false, true, "fast_ignoring_o"};
      x.sign_normalized = false;
    }
    fill(x, std::make_integer_sequence<int, reps>());
    return x;
  }();
  return t;
}
Register const registration(table());

} // namespace
