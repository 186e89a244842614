// C06: damaged text never yields a fabricated value or touches the target.
#include "devices.hpp"

#include <string>
#include <vector>

namespace {

using namespace dev;

void damage(std::string& s, uint64_t& pattern)
{
  static char const alphabet[] = "0123456789/-+ \n\t.,;xXeEabf'\"\0\xff|";
  auto const letter = [] { return alphabet[below(sizeof alphabet - 1)]; };
  size_t const n = s.size();
  auto const at = [&] { return static_cast<size_t>(below(s.size() + 1)); };
  auto const kind = below(8);
  pattern = sim::mix(pattern, kind);
  if (n == 0) return;
  switch (kind)
  {
    case 0: s.resize(at()); sim::count("fault:text truncated"); break;
    case 1: s.erase(below(n), 1); sim::count("fault:byte lost"); break;
    case 2: s[below(n)] = letter(); sim::count("fault:byte replaced"); break;
    case 3: s[below(n)] ^= static_cast<char>(1 << below(8)); sim::count("fault:bit flipped"); break;
    case 4: s.insert(at(), 1, letter()); sim::count("fault:byte inserted"); break;
    case 5:
    { // a range delivered twice
      size_t const a = below(n), k = 1 + below(6);
      s.insert(at(), s.substr(a, k));
      sim::count("fault:bytes duplicated");
      break;
    }
    case 6:
    { // a hole: the end of one record runs into the middle of another
      size_t const a = below(n), k = 1 + below(8);
      s.erase(a, k);
      sim::count("fault:records spliced");
      break;
    }
    default:
    { // two ranges swapped
      size_t const a = below(n), k = 1 + below(4);
      std::string const cut = s.substr(a, k);
      s.erase(a, k);
      s.insert(below(s.size() + 1), cut);
      sim::count("fault:bytes reordered");
    }
  }
}

void run()
{
  uint64_t pattern = 0;
  std::string text;
  uint64_t const nmenu = 1 + below(2);
  uint64_t menu[2] = {below(stream_types), below(stream_types)};
  unsigned const mean = sim::chance(1, 20) ? 60 : 5;
  do
  {
    auto const& t = stream_type(menu[below(nmenu)]);
    if (sim::chance(1, 5)) text += std::to_string(below(100000)); // a foreign record
    else
    {
      text += model::text(gen_part(t, true));
      if (sim::chance(1, 8)) text += ' ';
      text += '/';
      if (sim::chance(1, 8)) text += ' ';
      text += model::text(gen_part(t, true));
    }
    text += sim::pick({"\n", " ", "\n", ";", "\t\n"});
  } while (sim::more(mean));
  unsigned const faults = static_cast<unsigned>(below(5));
  for (unsigned i = 0; i < faults; ++i) damage(text, pattern);
  if (faults) sim::nontrivial();

  InDevice real(text.data(), text.size()), twin(text.data(), text.size());
  real.max_chunk = static_cast<unsigned>(below(8));
  real.putback = below(2);
  if (sim::chance(1, 3))
  {
    real.plan.kind = static_cast<InPlan::Kind>(1 + below(2));
    real.plan.at = below(text.size() + 1);
    real.plan.count = 0; // permanent: the rest of the text is gone
    twin.plan = real.plan;
    sim::nontrivial();
  }
  std::istream a(&real), b(&twin);
  if (sim::chance(1, 6))
  {
    a >> std::noskipws;
    b >> std::noskipws;
  }
  auto const base = sim::chance(1, 5) ? sim::pick({std::ios::hex, std::ios::oct}) : std::ios::dec;
  a.setf(base, std::ios::basefield);
  b.setf(base, std::ios::basefield);
  if (sim::chance(1, 5))
  { // numbers with thousands separators, misplaced ones among them
    char const sep = sim::pick({',', '.', ' ', '/'});
    std::locale const grouping(std::locale::classic(), new dev::Grouping(sep));
    a.imbue(grouping);
    b.imbue(grouping);
    for (size_t k = below(4); k > 0; --k) text.insert(below(text.size() + 1), 1, sep);
    real.set_text(text.data(), text.size());
    twin.set_text(text.data(), text.size());
    sim::nontrivial();
  }
  sim::ev("text", text, real.max_chunk, int(real.plan.kind), real.plan.at);
  pattern = sim::mix(pattern, text.size());

  // targets keep their values between reads
  i128 tn[2] = {7, -3}, td[2] = {9, 5};
  for (uint64_t m = 0; m < 2; ++m)
    if (!stream_type(menu[m]).is_signed) tn[m] = 11;
  bool went_on = false; // the caller went on without clearing the failure
  for (int step = 0; step < 300; ++step)
  {
    uint64_t const m = below(nmenu);
    auto const& t = stream_type(menu[m]);
    size_t const start = real.position();
    twin.seek(start);
    // the reference: integer, slash, integer by the standard library
    i128 n = 0, d = 0;
    bool ok = t.read_int(b, n);
    if (ok)
    {
      char c = 0;
      ok = static_cast<bool>(b >> c) && c == '/';
    }
    if (ok) ok = t.read_int(b, d);
    size_t const end = twin.position();
    // a minus sign in front of an unsigned number is converted, not refused, by
    // the standard library: leave that case open
    bool open_case = false;
    if (!t.is_signed)
      for (size_t i = start; i < end; ++i) open_case |= text[i] == '-';
    i128 const n0 = tn[m], d0 = td[m];
    t.read(a, tn[m], td[m]);
    sim::ev("read", t.name, int64_t(start), int(a.rdstate()), int64_t(tn[m]), int64_t(td[m]));
    sim::judge();
    auto const show = [&](i128 x, i128 y) { return model::text(x) + "/" + model::text(y); };
    if (went_on && (!a.fail() || real.position() != start))
      sim::violation("read on a failed stream", "%s: a read from a stream that had failed %s", t.name,
                     a.fail() ? "consumed characters" : "succeeded");
    if (a.fail())
    {
      if (tn[m] != n0 || td[m] != d0)
        sim::violation("target touched", "%s: a refused read changed the target from %s to %s", t.name,
                       show(n0, d0).c_str(), show(tn[m], td[m]).c_str());
      if (ok && !open_case)
        sim::violation("good text refused", "%s: the text at byte %zu of \"%s\" is %s but was refused", t.name,
                       start, text.c_str(), show(n, d).c_str());
      sim::count("probe:read refused");
    }
    else if (!open_case)
    {
      if (!ok)
        sim::violation("damaged text accepted", "%s: the text at byte %zu of \"%s\" was read as %s", t.name,
                       start, text.c_str(), show(tn[m], td[m]).c_str());
      if (tn[m] != n || td[m] != d)
        sim::violation("fabricated value", "%s: the text at byte %zu of \"%s\" is %s but was read as %s",
                       t.name, start, text.c_str(), show(n, d).c_str(), show(tn[m], td[m]).c_str());
      if (real.position() != end)
        sim::violation("consumed too much or too little", "%s: the read of %s stopped at byte %zu instead of %zu",
                       t.name, show(n, d).c_str(), real.position(), end);
    }
    bool const refused = a.fail();
    went_on = refused && sim::chance(1, 6);
    if (went_on)
    {
      sim::count("fault:the caller reads on without clearing the failure");
      b.setstate(std::ios::failbit);
      continue;
    }
    b.clear();
    a.clear();
    size_t p = real.position();
    if (refused)
    { // resynchronise somewhere behind the damage
      if (p == start) ++p;
      if (below(2))
        while (p < text.size() && text[p] != '\n') ++p;
    }
    else if (p < text.size() && text[p] == ';')
      ++p;
    if (p >= text.size() || (real.plan.kind != InPlan::none && p >= real.plan.at)) break;
    real.seek(p);
    if (sim::chance(1, 10))
    {
      tn[m] = t.max;
      td[m] = 1;
    }
  }
  sim::schedule(pattern);
  sim::state(sim::mix(pattern, faults * 100 + menu[0]));
}

} // namespace

namespace sim {
World const world = {
  "C06", run,
  "stream extraction of fraction and raw_fraction (10 types), libstdc++ istream and num_get",
  "the stream buffer and the medium: truncation, lost, replaced, flipped, inserted, duplicated, spliced and "
  "reordered bytes, chunked delivery, early end, device errors",
  "a run reads a history of records from a damaged medium; non-trivial when the medium damaged the text or failed"};
}
