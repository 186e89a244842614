// Simulated devices beneath the standard streams, and the stream operators of
// the library behind a type-erased table. No device allocates memory.
#pragma once
#include "model.hpp"
#include "sim.hpp"
#include "threads.hpp"

#include <cstring>
#include <ieme/fraction.hpp>
#include <ieme/raw_fraction.hpp>
#include <istream>
#include <locale>
#include <ostream>
#include <streambuf>

namespace dev {

using model::i128;
using sim::below;

struct DeviceError {
  int byte;
};

// ---- output -------------------------------------------------------------------
// What the device does with the bytes of one epoch. Byte numbers count the
// bytes the device has accepted since it was created.
struct OutPlan {
  enum Kind : int { none, refuse, throws, kinds } kind = none;
  size_t at = 0;          // the first byte affected
  size_t count = 0;       // how many attempts fail (0: all that follow)
};

class OutDevice : public std::streambuf {
public:
  static constexpr size_t capacity = 1 << 20;
  OutPlan plan;
  char* sink;              // bytes that reached the device
  size_t size = 0;
  size_t calls = 0;        // calls that reached the device
  size_t failures = 0;

  explicit OutDevice(char* storage, unsigned buffer) : sink(storage), nbuf(buffer)
  {
    if (nbuf > sizeof buf) nbuf = sizeof buf;
    if (nbuf) setp(buf, buf + nbuf);
  }
  // Everything the stream was told has been accepted.
  size_t accepted() const { return size + pending(); }
  size_t pending() const { return static_cast<size_t>(pptr() - pbase()); }
  char at(size_t i) const { return i < size ? sink[i] : pbase()[i - size]; }
  void replace_plan(OutPlan p)
  {
    plan = p;
    failed_attempts = 0;
  }

private:
  bool put(char c)
  {
    ++calls;
    bool bad = plan.kind != OutPlan::none && size >= plan.at
               && (plan.count == 0 || failed_attempts < plan.count);
    if (bad)
    {
      ++failed_attempts;
      ++failures;
      sim::ev("device refuses byte", size);
      if (plan.kind == OutPlan::throws)
      {
        sim::count("fault:output device throws");
        throw DeviceError {static_cast<int>(size)};
      }
      if (plan.count) sim::count("fault:output device refuses a byte for a while");
      else sim::count("fault:output device full");
      return false;
    }
    if (size >= capacity) sim::harness_error("output device too small");
    sink[size++] = c;
    sim::elapse(20);
    return true;
  }
  // Moves as much of the buffer as the device takes.
  bool drain()
  {
    size_t const n = pending();
    size_t done = 0;
    auto const keep = [&] {
      std::memmove(buf, buf + done, n - done);
      setp(buf, buf + nbuf);
      pbump(static_cast<int>(n - done));
    };
    try
    {
      while (done < n && put(buf[done])) ++done;
    }
    catch (...)
    {
      keep();
      throw;
    }
    keep();
    return done == n;
  }

protected:
  int_type overflow(int_type c) override
  {
    if (nbuf == 0)
      return c == traits_type::eof() || put(static_cast<char>(c)) ? traits_type::not_eof(c)
                                                                  : traits_type::eof();
    if (!drain() && pending() == nbuf) return traits_type::eof();
    if (c != traits_type::eof())
    {
      *pptr() = static_cast<char>(c);
      pbump(1);
    }
    return traits_type::not_eof(c);
  }
  std::streamsize xsputn(char const* s, std::streamsize n) override
  {
    for (std::streamsize i = 0; i < n; ++i)
      if (traits_type::eq_int_type(sputc(s[i]), traits_type::eof()))
      {
        if (i > 0) sim::count("fault:short write");
        return i;
      }
    return n;
  }
  int sync() override
  {
    if (nbuf == 0) return 0;
    return drain() ? 0 : -1;
  }

private:
  unsigned nbuf;
  size_t failed_attempts = 0;
  char buf[64];
};

// ---- input ---------------------------------------------------------------------
struct InPlan {
  enum Kind : int { none, eof, throws, kinds } kind = none;
  size_t at = 0;     // the first byte affected
  size_t count = 0;  // attempts that fail (0: all)
};

class InDevice : public std::streambuf {
public:
  InPlan plan;
  bool putback = true;
  unsigned max_chunk = 0;   // 0: everything at once
  size_t failures = 0;
  size_t calls = 0;
  uint64_t pattern = 0;     // hash of the chunk boundaries

  InDevice(char const* text, size_t n) : base(text), length(n) {}
  void set_text(char const* t, size_t n)
  {
    base = t;
    length = n;
    seek(0);
  }
  size_t position() const { return fetched - static_cast<size_t>(egptr() - gptr()); }
  void seek(size_t p)
  {
    fetched = p;
    setg(nullptr, nullptr, nullptr);
  }
  bool at_end() const { return position() >= length; }

protected:
  int_type underflow() override
  {
    ++calls;
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (plan.kind != InPlan::none && fetched >= plan.at
        && (plan.count == 0 || failures < plan.count))
    {
      ++failures;
      sim::ev("device fails at byte", fetched);
      if (plan.kind == InPlan::throws)
      {
        sim::count("fault:input device throws");
        throw DeviceError {static_cast<int>(fetched)};
      }
      sim::count("fault:input ends early");
      return traits_type::eof();
    }
    if (fetched >= length) return traits_type::eof();
    size_t n = length - fetched;
    if (max_chunk)
    {
      size_t const k = 1 + below(max_chunk);
      if (k < n)
      {
        n = k;
        sim::count("fault:short read");
      }
    }
    if (plan.kind != InPlan::none && fetched < plan.at && fetched + n > plan.at)
      n = plan.at - fetched;
    size_t const keep = putback && fetched > 0 ? 1 : 0;
    char* const p = const_cast<char*>(base) + fetched;
    setg(p - keep, p, p + n);
    fetched += n;
    pattern = sim::mix(pattern, n);
    sim::elapse(1000 + 20 * n);
    return traits_type::to_int_type(*gptr());
  }
  int_type pbackfail(int_type c) override
  {
    if (!putback) return traits_type::eof();
    size_t const p = position();
    if (p == 0) return traits_type::eof();
    if (c != traits_type::eof() && base[p - 1] != static_cast<char>(c)) return traits_type::eof();
    seek(p - 1);
    return traits_type::not_eof(c);
  }

private:
  char const* base;
  size_t length;
  size_t fetched = 0;
};

// ---- the stream operators, per type ------------------------------------------------
struct StreamType {
  char const* name;
  i128 max;
  bool is_signed;
  void (*write)(std::ostream&, i128 n, i128 d);
  // the target holds n/d beforehand and is copied back even if this throws
  void (*read)(std::istream&, i128& n, i128& d);
  // the same through the parts alone, without the library
  void (*plain_write)(std::ostream&, i128 n, i128 d);
  void (*plain_read)(std::istream&, i128& n, i128& d);
  // one integer of the representation type (reference)
  bool (*read_int)(std::istream&, i128&);
};

template <typename T>
struct Parts;
template <typename Rep>
struct Parts<ieme::raw_fraction<Rep>> {
  using rep = Rep;
  static ieme::raw_fraction<Rep> make(i128 n, i128 d) { return {static_cast<Rep>(n), static_cast<Rep>(d)}; }
  static i128 num(ieme::raw_fraction<Rep> const& f) { return f.numerator; }
  static i128 den(ieme::raw_fraction<Rep> const& f) { return f.denominator; }
};
template <typename Rep, typename Ops>
struct Parts<ieme::fraction<Rep, Ops>> {
  using rep = Rep;
  static ieme::fraction<Rep, Ops> make(i128 n, i128 d)
  {
    return ieme::fraction<Rep, Ops>(static_cast<Rep>(n), static_cast<Rep>(d));
  }
  static i128 num(ieme::fraction<Rep, Ops> const& f) { return f.numerator(); }
  static i128 den(ieme::fraction<Rep, Ops> const& f) { return f.denominator(); }
};

template <typename T>
struct StreamImpl {
  using P = Parts<T>;
  using Rep = typename P::rep;
  static void write(std::ostream& os, i128 n, i128 d)
  {
    T const f = P::make(n, d);
    sim::Lib guard;
    os << f;
  }
  static void read(std::istream& is, i128& n, i128& d)
  {
    T f = P::make(n, d);
    struct Back {
      T& f;
      i128 &n, &d;
      ~Back()
      {
        n = P::num(f);
        d = P::den(f);
      }
    } back {f, n, d};
    sim::Lib guard;
    is >> f;
  }
  static void plain_write(std::ostream& os, i128 n, i128 d)
  {
    os << static_cast<Rep>(n) << '/' << static_cast<Rep>(d);
  }
  static void plain_read(std::istream& is, i128& n, i128& d)
  {
    Rep a {}, b {};
    char slash {};
    is >> a;
    if (is)
    {
      is >> slash;
      if (is && slash != '/') is.setstate(std::ios_base::failbit);
    }
    is >> b;
    if (is)
    {
      n = a;
      d = b;
    }
  }
  static bool read_int(std::istream& is, i128& v)
  {
    Rep a {};
    is >> a;
    v = a;
    return !is.fail();
  }
  static StreamType make(char const* name)
  {
    return {name, static_cast<i128>(std::numeric_limits<Rep>::max()), std::is_signed_v<Rep>,
            write, read, plain_write, plain_read, read_int};
  }
};

inline StreamType const& stream_type(uint64_t i)
{
  using namespace ieme;
  static StreamType const types[] = {
    StreamImpl<fraction<int>>::make("fraction<int>"),
    StreamImpl<fraction<std::int64_t>>::make("fraction<int64>"),
    StreamImpl<raw_fraction<int>>::make("raw_fraction<int>"),
    StreamImpl<raw_fraction<std::int64_t>>::make("raw_fraction<int64>"),
    StreamImpl<fraction<unsigned>>::make("fraction<unsigned>"),
    StreamImpl<fraction<int, ops::fast>>::make("fraction<int, fast>"),
    StreamImpl<fraction<std::int64_t, ops::safe>>::make("fraction<int64, safe>"),
    StreamImpl<fraction<std::uint64_t, ops::fast_reduced_io>>::make("fraction<uint64, fast_reduced_io>"),
    StreamImpl<fraction<short, ops::safe_reduced_i>>::make("fraction<short, safe_reduced_i>"),
    StreamImpl<raw_fraction<unsigned short>>::make("raw_fraction<unsigned short>"),
  };
  return types[i];
}
constexpr uint64_t stream_types = 10;

// One part of a fraction to be written.
inline i128 gen_part(StreamType const& t, bool negative_allowed)
{
  i128 v;
  switch (below(4))
  {
    case 0: v = i128(below(10)); break;
    case 1: v = i128(below(1000)); break;
    case 2: v = t.max - i128(below(3)); break;
    default:
    {
      unsigned bits = 0;
      while ((t.max >> bits) > 0) ++bits;
      v = (i128(below(uint64_t(1) << 32)) << 32 | i128(below(uint64_t(1) << 32)))
          & ((i128(1) << (1 + below(bits))) - 1);
      if (v > t.max) v = t.max;
    }
  }
  if (t.is_signed && negative_allowed && below(2)) v = -v;
  return v;
}

// A locale with thousands separators.
struct Grouping : std::numpunct<char> {
  explicit Grouping(char s) : sep(s) {}
  char sep;
  char do_thousands_sep() const override { return sep; }
  std::string do_grouping() const override { return "\3"; }
  char do_decimal_point() const override { return sep == '.' ? ',' : '.'; }
};

} // namespace dev
