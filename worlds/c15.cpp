// C15: lines of floating-point text that travel through a faulty medium and are
// converted in place, next to unmapped memory or to hostile neighbours.
#include "calc.hpp"

#include <cstring>
#include <string>
#include <sys/mman.h>
#include <vector>

namespace {

using namespace calc;
using model::Q;
using sim::below;

constexpr size_t page = 4096;
char* arena; // one readable page between two unmapped ones

char* the_arena()
{
  if (!arena)
  {
    void* p = mmap(nullptr, 3 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED || mprotect(static_cast<char*>(p) + page, page, PROT_READ | PROT_WRITE) != 0)
      sim::harness_error("no guarded memory");
    arena = static_cast<char*>(p) + page;
  }
  return arena;
}

// A number whose parts usually fit.
std::string number(Calc const& c)
{
  std::string s;
  bool const hex = sim::chance(1, 3);
  unsigned const room = c.rep_bits; // of whole, fraction and scale together
  unsigned const digit_bits = hex ? 4 : 4;
  unsigned const digits_max = room / digit_bits;
  auto const digits = [&](unsigned n) {
    for (unsigned k = 0; k < n; ++k)
    {
      if (k && sim::chance(1, 8)) s += '\'';
      s += below(4) == 0 ? '0' : "123456789abcdefABCDEF"[below(hex ? 21 : 9)];
    }
  };
  if (hex) s += below(2) ? "0x" : "0X";
  unsigned w, f;
  if (sim::chance(1, 8))
  { // close to the limits of the type
    w = static_cast<unsigned>(below(digits_max + 3));
    f = static_cast<unsigned>(below(3));
    if (below(2)) std::swap(w, f);
  }
  else
  {
    w = static_cast<unsigned>(below(digits_max / 2));
    f = static_cast<unsigned>(below(digits_max / 2));
  }
  digits(w);
  bool const point = f > 0 || w == 0 || below(2);
  if (point) s += '.';
  digits(w == 0 && f == 0 ? 1 : f);
  if (hex || !point || sim::chance(1, 3))
  {
    s += hex ? (below(2) ? 'p' : 'P') : (below(2) ? 'e' : 'E');
    static char const* const signs[] = {"", "+", "-"};
    s += signs[below(3)];
    if (sim::chance(1, 6)) s += "00"; // leading zeros
    unsigned const big = hex ? (c.is_long ? 60 : 28) : (c.is_long ? 18 : 9);
    s += std::to_string(below(below(3) ? (hex ? 10 : 4) : big));
    if (sim::chance(1, 10) && s.back() != '\'') s += below(2) ? "'0" : "'1";
  }
  return s;
}

constexpr char interesting[] = ".'eEpPxX+-0123456789abcdfABCDF \t\n\0/gG,_";

void damage(std::string& s, uint64_t& shape)
{
  uint64_t const what = below(9);
  size_t const n = s.size();
  shape = sim::mix(shape, what);
  switch (what)
  {
    case 0:
      sim::count("fault:truncated");
      s.resize(below(n + 1));
      break;
    case 1:
      if (n == 0) return;
      sim::count("fault:bit flipped");
      s[below(n)] ^= static_cast<char>(1u << below(8));
      break;
    case 2:
      if (n == 0) return;
      sim::count("fault:byte replaced");
      s[below(n)] = interesting[below(sizeof interesting - 1)];
      break;
    case 3:
      if (n == 0) return;
      sim::count("fault:byte lost");
      s.erase(below(n), 1 + below(3));
      break;
    case 4:
      if (n == 0) return;
      {
        sim::count("fault:bytes duplicated");
        size_t const at = below(n);
        s.insert(at, s.substr(at, 1 + below(4)));
      }
      break;
    case 5:
      sim::count("fault:byte inserted");
      s.insert(below(n + 1), 1, interesting[below(sizeof interesting - 1)]);
      break;
    case 6:
    {
      sim::count("fault:spliced with another record");
      s.resize(below(n + 1));
      break;
    }
    case 7:
      sim::count("fault:record cut at its head");
      s.erase(0, below(n + 1));
      break;
    default:
      sim::count("fault:garbage");
      s.clear();
      for (uint64_t k = below(12); k > 0; --k) s += interesting[below(sizeof interesting - 1)];
  }
}

void convert(Calc const& c, char const* at, size_t n)
{
  Args x;
  x.text = at;
  x.text_len = static_cast<unsigned>(n);
  Result r;
  Expect const e = expect(c, from_text, x);
  Slot a;
  c.store(a, 0, 1);
  x.a = &a;
  c.exec(from_text, x, r); // must return, whatever the text
  sim::ev("text", std::string(at, n), int64_t(e.ok ? r.n : 0), int64_t(e.ok ? r.d : 0));
  if (!e.ok)
  {
    sim::count("numbers outside the representable domain (not judged)");
    return;
  }
  calc::judge(c, from_text, x, e, {}, r, "text");
  if (e.q.defined()) sim::count("numbers converted");
  else sim::count("texts refused");
}

void run()
{
  int n;
  auto const* const calcs = all(n);
  Calc const& c = *calcs[below(static_cast<uint64_t>(n))];
  char* const mem = the_arena();
  sim::ev("converter", c.name);
  uint64_t shape = 0;
  unsigned const rate = sim::pick({2u, 5u, 1u});
  unsigned const mean = sim::chance(1, 30) ? 100 : 8;
  do
  {
    std::string s = number(c);
    if (sim::chance(1, rate + 1))
    {
      damage(s, shape);
      if (below(4) == 0) damage(s, shape);
      if (sim::chance(1, 5))
      {
        sim::count("fault:spliced with another record");
        s += number(c).substr(below(3));
      }
      sim::nontrivial();
    }
    if (sim::chance(1, 40))
    { // a very long one
      std::string const part = s;
      while (s.size() < 300) s += below(3) ? part : std::string("0");
      sim::count("fault:very long record");
    }
    sim::elapse(1000 * s.size());
    // ---- where the text lies
    switch (below(3))
    {
      case 0: // right before unmapped memory
        std::memset(mem, '7', page);
        std::memcpy(mem + page - s.size(), s.data(), s.size());
        convert(c, mem + page - s.size(), s.size());
        break;
      case 1: // right after unmapped memory
        std::memset(mem, '7', page);
        std::memcpy(mem, s.data(), s.size());
        convert(c, mem, s.size());
        break;
      default:
      { // between neighbours that look like a continuation
        std::memset(mem, interesting[below(sizeof interesting - 1)], page);
        static char const* const before[] = {"0x", "1.", "12", "1e", "0x1.", "'", "-"};
        static char const* const after[] = {".5", "e3", "p3", "'0", "0", ".", "E-2"};
        char const *const l = before[below(7)], *const r = after[below(7)];
        char* const at = mem + 100;
        std::memcpy(at - std::strlen(l), l, std::strlen(l));
        std::memcpy(at, s.data(), s.size());
        std::memcpy(at + s.size(), r, std::strlen(r));
        convert(c, at, s.size());
      }
    }
  } while (sim::more(mean));
  sim::schedule(shape);
  sim::state(sim::mix(shape, c.rep_bits));
}

} // namespace

namespace sim {
World const world = {
  "C15", run,
  "floating_point_string_to_fraction and what it uses (8 policies x int64/int32/uint32)",
  "the medium that carries the text (truncation, flips, losses, duplication, splices), the memory around the text "
  "(unmapped pages, hostile neighbours)",
  "a run converts a history of possibly damaged texts; non-trivial when one was damaged"};
}
