// C16: float and double samples whose bits a faulty link or memory changes,
// converted to fractions and back.
#include "calc.hpp"

#include <bit>
#include <cmath>
#include <cstring>

namespace {

using namespace calc;
using model::Q;
using sim::below;

// The bits of a double or, in the low half, of a float.
struct Word {
  uint64_t bits = 0;
  bool wide = true;
  double value() const
  {
    return wide ? std::bit_cast<double>(bits) : static_cast<double>(std::bit_cast<float>(static_cast<uint32_t>(bits)));
  }
  int size() const { return wide ? 64 : 32; }
  int mantissa() const { return wide ? 52 : 23; }
  uint64_t mask() const { return wide ? ~uint64_t(0) : 0xffffffffu; }
};

Word sample(Calc const& c, bool wide)
{
  Word w;
  w.wide = wide;
  int const m = w.mantissa(), x = w.size() - 1 - m;
  uint64_t const bias = (uint64_t(1) << (x - 1)) - 1;
  uint64_t sign = below(2), exponent, mantissa;
  // significant bits
  unsigned const s = static_cast<unsigned>(below(static_cast<uint64_t>(m) + 1));
  mantissa = s == 0 ? 0 : (below(uint64_t(1) << (s > 32 ? 32 : s)) | (s > 32 ? below(uint64_t(1) << (s - 32)) << 32 : 0));
  if (below(3)) mantissa <<= (static_cast<unsigned>(m) - s);
  switch (below(8))
  {
    case 0: exponent = 0; break;                                     // zero and subnormals
    case 1: exponent = (uint64_t(1) << x) - 1; break;                // infinity and NaN
    case 2: exponent = below(uint64_t(1) << x); break;               // anything
    case 3: exponent = bias + c.rep_bits - 2 + below(4); break;      // the top of the type
    case 4: exponent = bias - c.rep_bits - 2 + below(5) ; break;     // the bottom
    case 5: // everything in the fraction, near the largest denominator
      exponent = bias + static_cast<uint64_t>(s) - c.rep_bits - 2 + below(5);
      break;
    default: exponent = bias + below(40) - 20; break;
  }
  exponent &= (uint64_t(1) << x) - 1;
  w.bits = sign << (w.size() - 1) | exponent << m | mantissa;
  return w;
}

void corrupt(Word& w, Word const& previous, uint64_t& shape)
{
  uint64_t const what = below(7);
  shape = sim::mix(shape, what);
  unsigned const size = static_cast<unsigned>(w.size());
  switch (what)
  {
    case 0: case 1:
    {
      unsigned k = static_cast<unsigned>(1 + below(what ? 3 : 1));
      while (k--)
      {
        unsigned const b = static_cast<unsigned>(below(size));
        w.bits ^= uint64_t(1) << b;
        shape = sim::mix(shape, b);
      }
      sim::count("fault:bits flipped");
      break;
    }
    case 2:
      w.bits |= uint64_t(1) << below(size);
      sim::count("fault:bit stuck at one");
      break;
    case 3:
    {
      unsigned const k = static_cast<unsigned>(below(size));
      w.bits &= ~(((uint64_t(1) << (1 + below(12))) - 1) << k);
      sim::count("fault:bits stuck at zero");
      break;
    }
    case 4:
    { // part of the previous sample
      unsigned const k = static_cast<unsigned>(8 * (1 + below(size / 8 - 1)));
      uint64_t const low = (uint64_t(1) << k) - 1;
      w.bits = (w.bits & ~low) | (previous.bits & low);
      sim::count("fault:torn word");
      break;
    }
    case 5:
      w.bits = w.wide ? __builtin_bswap64(w.bits) : __builtin_bswap32(static_cast<uint32_t>(w.bits));
      sim::count("fault:bytes swapped");
      break;
    default:
    { // bytes shifted in from the next sample
      unsigned const k = static_cast<unsigned>(8 * (1 + below(size / 8 - 1)));
      w.bits = w.bits << k | previous.bits >> (size - k);
      sim::count("fault:lost byte");
    }
  }
  w.bits &= w.mask();
  sim::nontrivial();
}

void run()
{
  int n;
  auto const* const calcs = all(n);
  Calc const& c = *calcs[below(static_cast<uint64_t>(n))];
  bool const wide = below(2);
  sim::ev("samples", c.name, wide);
  Word previous;
  previous.wide = wide;
  uint64_t shape = 0;
  unsigned const mean = sim::chance(1, 30) ? 200 : 12;
  do
  {
    Word w = sample(c, wide);
    Word const sent = w;
    if (below(2)) corrupt(w, previous, shape);
    previous = sent;
    sim::elapse(1000);
    double const value = w.value();
    Args x;
    x.real = value;
    Result r;
    Slot a;
    c.store(a, 0, 1);
    x.a = &a;
    bool const judged = evaluate(c, wide ? from_double : from_float, x, r, "sample");
    sim::ev("sample", int64_t(w.bits), int64_t(r.n), int64_t(r.d));
    if (!judged)
    {
      sim::count("samples of exactly the most negative integer (not judged)");
      continue;
    }
    if (!std::isfinite(value)) sim::count("probe:NaN or infinity");
    else if (value != 0 && ((w.bits >> w.mantissa()) & (wide ? 0x7ff : 0xff)) == 0) sim::count("probe:subnormal");
    if (r.d == 0)
    {
      sim::count("samples flagged");
      shape = sim::mix(shape, 1);
      // the flag survives: NaN again
      c.store(a, r.n, r.d);
      Args y;
      y.a = &a;
      Result s;
      evaluate(c, below(2) ? to_double_ : to_float_, y, s, "flag");
      continue;
    }
    sim::count("samples converted");
    // ---- and back
    c.store(a, r.n, r.d);
    Args y;
    y.a = &a;
    for (int kind : {to_float_, to_double_, to_long_double_})
    {
      if (kind == to_float_ && wide) continue; // 24 bits may not be enough
      Result s;
      c.exec(kind, y, s);
      long double back;
      std::memcpy(&back, s.text, sizeof back);
      sim::judge();
      if (!(back == static_cast<long double>(value)))
        sim::violation("round trip", "%s: %a became %s/%s and came back as %La (%s)", c.name, value,
                       model::text(r.n).c_str(), model::text(r.d).c_str(), back, kind_name(kind));
    }
    // ---- any other fraction with exactly representable parts
    model::R const q = gen_parts(c, static_cast<unsigned>(2 + below(c.rep_bits - 1)), true);
    c.store(a, q.n, q.d);
    Result s;
    int const kind = static_cast<int>(to_float_ + below(3));
    if (evaluate(c, kind, y, s, "nearest")) sim::count("fractions converted");
  } while (sim::more(mean));
  sim::schedule(shape);
  sim::state(sim::mix(shape, c.rep_bits * 2 + wide));
}

} // namespace

namespace sim {
World const world = {
  "C16", run,
  "to_fraction(float/double), to_float, to_double, to_long_double (8 policies x int64/int32/uint32)",
  "the link or memory that carries the samples (flips, stuck bits, torn and swapped words)",
  "a run converts a history of samples; non-trivial when the bits of one were changed"};
}
