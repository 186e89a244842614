// C09: value operations under an exhausted heap, stream operators under
// allocations that fail at arbitrary points.
#include "calc.hpp"
#include "devices.hpp"

#include <new>
#include <string>

namespace {

using namespace calc;
using sim::below;

void values(uint64_t& shape)
{
  int n;
  auto const* const calcs = all(n);
  Calc const& c = *calcs[below(static_cast<uint64_t>(n))];
  unsigned const bits = static_cast<unsigned>(2 + below(c.rep_bits - 1));
  unsigned const mean = sim::chance(1, 30) ? 200 : 10;
  Slot slot[4];
  for (auto& s : slot)
  {
    model::R const v = gen_parts(c, bits, true);
    c.store(s, v.n, v.d);
  }
  uint64_t refused = 0;
  int const mode = static_cast<int>(1 + below(4)); // all, the nth, from the nth, at random
  sim::ev("values", c.name, bits, mode);
  do
  {
    int kind = static_cast<int>(below(kind_count));
    if (kind == format_ || kind == parse_ || !c.supports(kind)) kind = add_ff;
    Args x;
    TextBuffer text;
    x.a = &slot[below(4)];
    x.b = &slot[below(4)];
    gen_aux(c, kind, bits, x, text);
    Expect const e = expect(c, kind, x);
    if (!e.ok) continue;
    Slot const b = *x.b;
    Args before = x;
    before.b = &b;
    model::R const a0 = c.load(*x.a);
    Result r;
    sim::heap::arm(mode, 1 + below(2));
    c.exec(kind, x, r);
    sim::heap::disarm();
    refused += sim::heap::refused;
    sim::ev("eval", kind_name(kind), int64_t(a0.n), int64_t(a0.d), x.i, x.mode, int64_t(r.n), int64_t(r.d), r.v[0]);
    if (sim::heap::requests)
      sim::violation("allocation", "%s: %s asked for memory %llu times", c.name, kind_name(kind),
                     static_cast<unsigned long long>(sim::heap::requests));
    sim::count("fault:evaluations under an exhausted heap");
    sim::nontrivial();
    calc::judge(c, kind, before, e, a0, r, "no memory");
    if (r.type == Result::frac && same_rep_result(kind) && c.limits.fits(r.n) && c.limits.fits(r.d))
      c.store(slot[below(4)], r.n, r.d);
    shape = sim::mix(shape, uint64_t(kind));
  } while (sim::more(mean));
}

void arm()
{
  int const mode = static_cast<int>(1 + below(4));
  sim::heap::arm(mode, 1 + below(6), 1, static_cast<unsigned>(2 + below(4)));
}
void note()
{
  sim::heap::disarm();
  if (sim::heap::refused)
  {
    sim::count("fault:allocation refused", sim::heap::refused);
    sim::nontrivial();
  }
}

char storage[4096];

void output(std::locale const& loc, uint64_t& shape)
{
  dev::OutDevice out(storage, static_cast<unsigned>(below(20)));
  std::ostream os(&out);
  os.imbue(loc);
  auto const mask = sim::chance(1, 3) ? std::ios_base::badbit : std::ios_base::goodbit;
  os.exceptions(mask);
  if (below(2)) os.setf(std::ios::showpos);
  // reference text with all the memory there is
  static char ref_storage[4096];
  do
  {
    auto const& t = dev::stream_type(below(dev::stream_types));
    i128 const n = dev::gen_part(t, true), d = dev::gen_part(t, true);
    dev::OutDevice ref(ref_storage, 0);
    std::ostream ros(&ref);
    ros.imbue(loc);
    ros.setf(os.flags());
    t.plain_write(ros, n, d);
    size_t const before = out.accepted();
    bool threw = false;
    arm();
    try { t.write(os, n, d); }
    catch (...) { threw = true; }
    note();
    sim::ev("insert", t.name, int64_t(n), int64_t(d), int(os.rdstate()), threw, out.accepted());
    sim::judge();
    if (threw && mask == std::ios_base::goodbit)
      sim::violation("escaped exception", "%s: an exception left << although the stream has no exception mask", t.name);
    size_t const got = out.accepted() - before;
    if (got > ref.size) sim::violation("not a prefix", "%s: more bytes than the value has", t.name);
    for (size_t i = 0; i < got; ++i)
      if (out.at(before + i) != ref.sink[i])
        sim::violation("not a prefix", "%s: byte %zu is '%c' instead of '%c'", t.name, i, out.at(before + i), ref.sink[i]);
    if (got != ref.size && !os.fail())
      sim::violation("unreported loss", "%s: %zu of %zu bytes written and the stream is good", t.name, got, ref.size);
    shape = sim::mix(shape, got * 2 + os.fail());
    if (os.fail())
    {
      os.exceptions(std::ios_base::goodbit);
      os.clear();
      os.exceptions(mask);
    }
  } while (sim::more(4) && out.size < 3500);
}

void input(std::locale const& loc, uint64_t& shape)
{
  do
  {
    auto const& t = dev::stream_type(below(dev::stream_types));
    i128 const n = dev::gen_part(t, true), d = dev::gen_part(t, true);
    dev::OutDevice ref(storage, 0);
    std::ostream ros(&ref);
    ros.imbue(loc);
    t.plain_write(ros, n, d);
    dev::InDevice in(ref.sink, ref.size);
    in.max_chunk = 0;
    std::istream is(&in);
    is.imbue(loc);
    auto const mask = sim::chance(1, 3) ? std::ios_base::badbit : std::ios_base::goodbit;
    is.exceptions(mask);
    i128 x = 3, y = 5;
    bool threw = false;
    arm();
    try { t.read(is, x, y); }
    catch (...) { threw = true; }
    note();
    sim::ev("extract", t.name, int64_t(x), int64_t(y), int(is.rdstate()), threw);
    sim::judge();
    if (threw && mask == std::ios_base::goodbit)
      sim::violation("escaped exception", "%s: an exception left >> although the stream has no exception mask", t.name);
    if (is.fail() ? (x != 3 || y != 5) : (x != n || y != d))
      sim::violation("wrong value", "%s: %s/%s was read as %s/%s, stream state %d", t.name, model::text(n).c_str(),
                     model::text(d).c_str(), model::text(x).c_str(), model::text(y).c_str(), int(is.rdstate()));
    shape = sim::mix(shape, is.fail());
  } while (sim::more(4));
}

void run()
{
  uint64_t shape = below(4);
  if (shape < 2) values(shape);
  else
  {
    // every locale object caches its formats on first use, from the heap
    std::locale loc = std::locale::classic();
    if (below(4)) loc = std::locale(loc, new dev::Grouping(sim::pick({',', '.', '\''})));
    if (shape == 2) output(loc, shape);
    else input(loc, shape);
  }
  sim::schedule(shape);
  sim::state(shape);
}

} // namespace

namespace sim {
World const world = {
  "C09", run,
  "all value operations of include/ieme (8 policies x int64/int32/uint32), the stream operators, "
  "libstdc++ streams and locales",
  "the heap (malloc and everything above it), the stream buffers",
  "a run evaluates operations, or inserts/extracts values, while allocations fail by plan; non-trivial when "
  "an operation ran with the heap exhausted or an allocation was refused"};
}
