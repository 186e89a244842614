// C04: fractions written to a stream are read back exactly, whatever the device
// does to the boundaries and the timing of the bytes.
#include "devices.hpp"
#include "pipe.hpp"

#include <string>
#include <vector>

namespace {

using namespace dev;

struct Item {
  int kind;        // 0 fraction, 1 integer, 2 word
  uint64_t type;
  i128 n, d;
  int number;
  std::string word;
  int width;
  std::string separator;
  bool flush;
  bool leave_blanks; // the reader leaves the separator to the next extraction
};

struct Config {
  int base = 10;
  bool showbase = false, showpos = false, uppercase = false, noskipws = false;
  int adjust = 0;
  char grouping = 0;
  bool plain() const
  {
    return base == 10 && !showpos && adjust == 0 && !grouping;
  }
} cfg;

char* storage()
{
  static char* p = static_cast<char*>(::operator new(OutDevice::capacity));
  return p;
}

void set_flags(std::ios_base& s)
{
  s.setf(cfg.base == 16 ? std::ios::hex : cfg.base == 8 ? std::ios::oct : std::ios::dec,
         std::ios::basefield);
  if (cfg.showbase) s.setf(std::ios::showbase);
  if (cfg.showpos) s.setf(std::ios::showpos);
  if (cfg.uppercase) s.setf(std::ios::uppercase);
  if (cfg.noskipws) s.unsetf(std::ios::skipws);
  if (cfg.adjust == 1) s.setf(std::ios::left, std::ios::adjustfield);
  if (cfg.adjust == 2) s.setf(std::ios::right, std::ios::adjustfield);
}

void write_item(std::ostream& os, Item const& it)
{
  if (it.width) os.width(it.width);
  switch (it.kind)
  {
    case 0: stream_type(it.type).write(os, it.n, it.d); break;
    case 1: os << it.number; break;
    default: os << it.word; break;
  }
  os.width(0);
  os << it.separator;
  if (it.flush) os.flush();
  if (!os) sim::violation("write failed", "the stream failed although the device accepted every byte");
}

void read_item(std::istream& is, std::vector<Item> const& items, size_t i)
{
  Item const& it = items[i];
  switch (it.kind)
  {
    case 0:
    {
      auto const& t = stream_type(it.type);
      i128 n = t.max / 3, d = t.max / 2;
      t.read(is, n, d);
      sim::ev("read", i, t.name, int64_t(n), int64_t(d), int(is.rdstate()));
      sim::judge();
      if (!is)
        sim::violation("extraction failed", "%s: reading %s/%s failed (state %d)", t.name,
                       model::text(it.n).c_str(), model::text(it.d).c_str(), int(is.rdstate()));
      if (n != it.n || d != it.d)
        sim::violation("value changed", "%s: wrote %s/%s, read %s/%s", t.name,
                       model::text(it.n).c_str(), model::text(it.d).c_str(), model::text(n).c_str(),
                       model::text(d).c_str());
      break;
    }
    case 1:
    {
      int v = 0;
      is >> v;
      if (!is || v != it.number)
        sim::violation("neighbour damaged", "the integer %d next to a fraction was read as %d", it.number, v);
      break;
    }
    default:
    {
      std::string w;
      is >> w;
      if (!is || w != it.word)
        sim::violation("neighbour damaged", "the word %s next to a fraction was read as %s",
                       it.word.c_str(), w.c_str());
    }
  }
  bool const last = i + 1 == items.size() && it.separator.empty();
  if (last) return;
  int const next = is.rdbuf()->sgetc();
  sim::judge();
  if (next != std::char_traits<char>::to_int_type(it.separator[0]))
    sim::violation("consumed too much or too little", "after item %d the next character is %d instead of %d",
                   int(i), next, it.separator[0]);
  if (it.leave_blanks) return;
  for (char c : it.separator)
    if (is.get() != c) sim::violation("neighbour damaged", "separator %d was lost", c);
}

void run()
{
  sim::set_step_limit(20'000'000);
  // number formats
  if (sim::chance(1, 2))
  {
    cfg.base = sim::pick({10, 10, 16, 8});
    cfg.showbase = cfg.base != 10 && below(2);
    cfg.showpos = cfg.base == 10 && below(2);
    cfg.uppercase = below(2);
    cfg.adjust = static_cast<int>(below(3));
    if (sim::chance(1, 2)) cfg.grouping = sim::pick({',', '.', '\'', '_'});
  }
  cfg.noskipws = sim::chance(1, 4);
  bool const widths = sim::chance(1, 3) && !cfg.noskipws;
  uint64_t menu[3];
  for (auto& m : menu) m = below(stream_types);
  unsigned const mean = sim::chance(1, 30) ? 200 : 5;
  std::vector<Item> items;
  do
  {
    Item it {};
    it.kind = sim::chance(1, 4) ? static_cast<int>(1 + below(2)) : 0;
    it.type = menu[below(3)];
    auto const& t = stream_type(it.type);
    it.n = gen_part(t, cfg.base == 10);
    it.d = gen_part(t, cfg.base == 10);
    it.number = static_cast<int>(below(100000)) - (cfg.base == 10 ? 50000 : 0);
    it.word = sim::pick({"apple", "x", "Kilo", "ENDOFRECORD"});
    it.width = widths && it.kind == 0 ? static_cast<int>(below(40)) : 0;
    if (it.kind == 2) it.separator = sim::pick({" ", "\n", "\t "});
    else it.separator = sim::pick({" ", "\n", "/", ";", "|", ":", " \t\n ", " / ", "/-", "(", "\""});
    // with noskipws only the harness skips blanks
    if (cfg.noskipws || it.separator.find_first_not_of(" \t\n") != std::string::npos)
      it.leave_blanks = false;
    else
      it.leave_blanks = below(2);
    it.flush = sim::chance(1, 4);
    items.push_back(it);
  } while (sim::more(mean));
  if (sim::chance(1, 2)) items.back().separator.clear(); // ends at the last digit

  std::locale loc = std::locale::classic();
  if (cfg.grouping) loc = std::locale(loc, new Grouping(cfg.grouping));

  std::string plain;
  for (auto const& it : items)
    plain += (it.kind == 0   ? model::text(it.n) + "/" + model::text(it.d)
              : it.kind == 1 ? std::to_string(it.number)
                             : it.word)
             + it.separator;
  bool const comparable = cfg.plain() && !widths;
  auto const check_text = [&](char const* s, size_t n) {
    if (!comparable) return;
    sim::judge();
    if (std::string(s, n) != plain)
      sim::violation("output text", "wrote \"%s\" instead of \"%s\"", std::string(s, n).c_str(), plain.c_str());
  };

  unsigned const wbuf = sim::chance(1, 2) ? static_cast<unsigned>(below(20)) : 0;
  unsigned const chunk = static_cast<unsigned>(below(10));
  sim::ev("config", cfg.base, cfg.showbase, cfg.showpos, cfg.uppercase, cfg.adjust, cfg.grouping,
          cfg.noskipws, items.size(), wbuf, chunk);
  if (sim::chance(1, 2))
  { // through a device, written completely before it is read
    OutDevice out(storage(), wbuf);
    std::ostream os(&out);
    os.imbue(loc);
    set_flags(os);
    for (auto const& it : items) write_item(os, it);
    os.flush();
    sim::ev("written", std::string(out.sink, out.size));
    check_text(out.sink, out.size);
    InDevice in(out.sink, out.size);
    in.max_chunk = chunk;
    in.putback = below(4) != 0;
    std::istream is(&in);
    is.imbue(loc);
    set_flags(is);
    for (size_t i = 0; i < items.size(); ++i) read_item(is, items, i);
    if (chunk) sim::nontrivial();
    sim::schedule(sim::mix(in.pattern, wbuf));
  }
  else
  { // two nodes joined by a bounded pipe
    static sim::Pipe pipe;
    pipe.capacity = 1 + below(16);
    pipe.log = storage();
    pipe.log_capacity = OutDevice::capacity;
    std::function<void()> bodies[2] = {
      [&] {
        sim::PipeOut out(pipe, wbuf);
        std::ostream os(&out);
        os.imbue(loc);
        set_flags(os);
        for (auto const& it : items) write_item(os, it);
        os.flush();
        sim::pipe_close(pipe);
      },
      [&] {
        sim::PipeIn in(pipe, chunk + 1);
        std::istream is(&in);
        is.imbue(loc);
        set_flags(is);
        for (size_t i = 0; i < items.size(); ++i) read_item(is, items, i);
        while (in.sbumpc() != std::char_traits<char>::eof()) {} // drain a left separator
      }};
    sim::ThreadOptions opt;
    opt.mean_gap = sim::pick({2u, 20u});
    sim::run_threads(bodies, 2, opt);
    sim::ev("written", std::string(pipe.log, pipe.log_size));
    check_text(pipe.log, pipe.log_size);
    sim::nontrivial();
  }
  sim::state(sim::mix(sim::mix(uint64_t(cfg.base) * 64 + cfg.showbase * 32 + cfg.showpos * 16
                                 + cfg.noskipws * 8 + uint64_t(cfg.adjust), uint64_t(cfg.grouping)),
                      sim::mix(wbuf, chunk) + menu[0]));
}

} // namespace

namespace sim {
World const world = {
  "C04", run,
  "stream insertion and extraction of fraction and raw_fraction (10 types), libstdc++ streams, "
  "num_put/num_get, locales",
  "the stream buffers and devices beneath the streams, the pipe, the thread scheduler",
  "a run writes a history of fractions, integers and words to a simulated device or pipe and reads "
  "them back; non-trivial when reads are delivered in chunks or through a pipe between two threads"};
}
