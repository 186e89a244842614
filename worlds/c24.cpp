// C24: every evaluation is done within a bounded number of steps. A real-time
// node evaluates jobs that come from senders over a network that loses,
// repeats, delays and corrupts them; the node is slow at times, stalls, and
// dies in the middle of evaluations. Every basic block the library executes is
// a step of its virtual processor.
#include "calc.hpp"
#include "devices.hpp"
#include "sim.hpp"
#include "work.hpp"

#include <cstring>
#include <deque>
#include <queue>
#include <string>
#include <vector>

namespace {

using namespace calc;
using sim::below;

// An evaluation takes a few hundred steps (see DESIGN.md).
constexpr uint64_t steps_per_value = 20'000, steps_per_char = 400;
constexpr size_t stack_per_value = 64 * 1024;
constexpr int own_n = 3;

struct Job {
  enum What : int { value, extract, insert } what = value;
  size_t menu = 0;
  int kind = add_ff;
  model::R a, b;
  int ra = -1, rb = -1, dst = 0; // registers of the node instead of a, b
  Args aux;
  std::string text;
  // extract, insert
  uint64_t type = 0;
  unsigned chunk = 0, width = 0, plan = 0, mask = 0;
  size_t plan_at = 0, plan_count = 0;
  i128 n = 0, d = 1;
  uint64_t budget() const { return steps_per_value + steps_per_char * (text.size() + width); }
};

struct Arrival {
  uint64_t time, seq;
  size_t job;
  bool operator<(Arrival const& o) const { return time != o.time ? time > o.time : seq > o.seq; }
};

i128 fibonacci(unsigned k)
{
  i128 x = 0, y = 1;
  for (; k; --k)
  {
    i128 const z = x + y;
    x = y;
    y = z;
  }
  return x;
}

struct Sim {
  std::vector<Calc const*> menu;
  std::vector<int> kinds;
  std::vector<unsigned> bits;
  std::vector<std::vector<Slot>> regs; // volatile; durable: `saved`
  std::vector<std::vector<Slot>> saved;
  std::vector<Job> jobs;
  uint64_t now = 0, shape = 0, slowness = 1, evaluations = 0;
  unsigned crash_1_in = 0, slow_1_in = 0;

  // ---- what may arrive
  model::R hard_value(Calc const& c, unsigned width)
  {
    i128 const top = c.limits.max;
    auto const sign = [&](i128 v) { return c.limits.is_signed && below(2) ? -v : v; };
    model::R r;
    switch (below(8))
    {
      case 0: return gen_parts(c, width, true);
      case 1: r = {1, top - i128(below(3))}; break;
      case 2: r = {top - i128(below(3)), 1 + i128(below(3))}; break;
      case 3:
      { // the longest Euclidean division
        unsigned const k = static_cast<unsigned>(3 + below(c.rep_bits * 13 / 9 - 4));
        r = {fibonacci(k), fibonacci(k - 1)};
        if (below(2)) std::swap(r.n, r.d);
        break;
      }
      case 4: r = {i128(1) << below(c.rep_bits), i128(1) << below(c.rep_bits)}; break;
      case 5: r = {i128(below(1000)), i128(1) << below(c.rep_bits)}; break;
      case 6: r = {(i128(1) << below(c.rep_bits)) - 1, 1 + i128(below(1000))}; break;
      default: r = {i128(0), top - i128(below(3))}; break;
    }
    if (!c.limits.fits(r.n) || !c.limits.fits(r.d)) return gen_parts(c, width, true);
    return {sign(r.n), sign(r.d)};
  }

  void gen_text(Calc const& c, std::string& s)
  {
    auto const zeros = [&](unsigned most) {
      bool const separated = below(4) == 0;
      for (auto n = below(most); n; --n)
      {
        s += '0';
        if (separated) s += '\'';
      }
    };
    unsigned const most = sim::pick({4u, 40u, 600u, 4000u});
    switch (below(6))
    {
      case 0:
        zeros(most);
        s += "12.5";
        break;
      case 1:
        s += "3e";
        zeros(most);
        s += '1';
        break;
      case 2:
        s += "0x";
        zeros(most);
        s += "1p";
        if (below(2)) s += '-';
        zeros(most);
        s += '3';
        break;
      case 3: // damaged
        zeros(most);
        s += sim::pick({".", "'", "..", "e", "e-", "x", "0x", "1''2"});
        zeros(most);
        s += sim::pick({"", "p", "e", "'", "-", ".e", "z"});
        break;
      case 4:
        for (auto n = below(most); n; --n) s += "0123456789'.eExXpP+-aF"[below(22)];
        break;
      default:
        s += "1.5e";
        s += sim::pick({"-", "+", ""});
        zeros(most);
        s += c.is_long ? "1" : "0";
        break;
    }
  }

  Job gen()
  {
    Job j;
    uint64_t const what = below(8);
    if (what == 6) return gen_extract();
    if (what == 7) return gen_insert();
    j.menu = below(menu.size());
    Calc const& c = *menu[j.menu];
    for (int tries = 0; tries < 8; ++tries)
    {
      int const k = kinds[below(kinds.size())];
      if (!c.supports(k) || k == dec_literal) continue;
      j.kind = k;
      break;
    }
    TextBuffer text;
    gen_aux(c, j.kind, bits[j.menu], j.aux, text);
    if (j.aux.text) j.text.assign(j.aux.text, j.aux.text_len);
    if (below(2) == 0 && j.kind != pow_ && j.kind != pow2_ && j.kind != clock_read && j.kind != time_whole)
    {
      model::R const v = hard_value(c, bits[j.menu]);
      j.aux.i = static_cast<i64>(below(2) ? v.n : v.d);
    }
    if (j.kind == pow_ && below(2))
    { // exponents of any length
      j.aux.i = static_cast<i64>(below(2)) - (c.limits.is_signed && below(2) ? 1 : 0);
      j.aux.mode = static_cast<int>(below(uint64_t(1) << (1 + below(31))));
      if (below(2)) j.aux.mode = -j.aux.mode;
    }
    if (j.kind == from_text && below(2))
    {
      j.text.clear();
      gen_text(c, j.text);
    }
    if ((j.kind == from_double || j.kind == from_float) && below(2))
    { // any bits at all
      uint64_t const word = below(uint64_t(1) << 32) << 32 | below(uint64_t(1) << 32);
      std::memcpy(&j.aux.real, &word, sizeof word);
      if (j.kind == from_float)
      {
        float f;
        std::memcpy(&f, &word, sizeof f);
        j.aux.real = static_cast<double>(f);
      }
    }
    j.a = hard_value(c, bits[j.menu]);
    j.b = below(2) ? gen_related(c, j.a, bits[j.menu]) : hard_value(c, bits[j.menu]);
    if (below(3) == 0) j.ra = static_cast<int>(below(own_n));
    if (below(3) == 0) j.rb = static_cast<int>(below(own_n));
    j.dst = static_cast<int>(below(own_n));
    return j;
  }

  Job gen_extract()
  {
    Job j;
    j.what = Job::extract;
    j.type = below(dev::stream_types);
    unsigned const most = sim::pick({2u, 30u, 500u, 3000u});
    auto const many = [&](char const* set, unsigned n) {
      for (auto k = below(most); k; --k) j.text += set[below(n)];
    };
    many(" \n\t", 3);
    if (below(4) == 0) many("0", 1);
    j.text += std::to_string(below(1000));
    if (below(3) == 0) many(" \n", 2);
    j.text += sim::pick({"/", "/", "/", "//", "", "x", "-", "./"});
    if (below(3) == 0) many(" ", 1);
    if (below(4) == 0) many("0123456789", 10);
    j.text += std::to_string(below(1000));
    if (below(3) == 0) many(" 01/9x-", 7);
    gen_device(j);
    return j;
  }

  Job gen_insert()
  {
    Job j;
    j.what = Job::insert;
    j.type = below(dev::stream_types);
    auto const& t = dev::stream_type(j.type);
    j.n = dev::gen_part(t, true);
    j.d = dev::gen_part(t, true);
    if (below(3) == 0) j.width = static_cast<unsigned>(below(sim::pick({10u, 300u, 3000u})));
    gen_device(j);
    return j;
  }

  void gen_device(Job& j)
  {
    j.chunk = static_cast<unsigned>(below(20));
    j.mask = static_cast<unsigned>(below(4));
    if (below(2))
    {
      j.plan = static_cast<unsigned>(1 + below(2));
      j.plan_at = below(j.text.size() + j.width + 8);
      j.plan_count = below(3);
    }
  }

  // The medium flips a bit of an operand.
  void corrupt(Job& j)
  {
    if (j.what == Job::value)
    {
      Calc const& c = *menu[j.menu];
      model::R& v = below(2) ? j.a : j.b;
      i128& part = below(2) ? v.n : v.d;
      i128 const flipped = part ^ i128(1) << below(c.rep_bits);
      if (c.limits.fits(flipped)) part = flipped;
    }
    else if (!j.text.empty())
      j.text[below(j.text.size())] = static_cast<char>(below(256));
    sim::count("fault:message corrupted");
  }

  // ---- the node
  void spend(uint64_t steps)
  {
    uint64_t const ns = steps * slowness;
    now += ns;
    sim::elapse(ns);
  }

  void power()
  {
    if (!slow_1_in || below(slow_1_in) + 1 != slow_1_in) return;
    slowness = sim::pick({1u, 2u, 5u, 20u});
    if (slowness > 1) sim::count("fault:slow processor");
    if (below(3) == 0)
    {
      uint64_t const stall = 1000 * (1 + below(1000));
      now += stall;
      sim::elapse(stall);
      sim::count("fault:node stalled");
    }
  }

  void value_job(Job const& j)
  {
    Calc const& c = *menu[j.menu];
    Args x = j.aux;
    if (x.text)
    {
      x.text = j.text.data();
      x.text_len = static_cast<unsigned>(j.text.size());
    }
    bool const compound = modifies(j.kind);
    auto& regs_of = regs[j.menu];
    Slot sa, sb;
    c.store(sa, j.a.n, j.a.d);
    c.store(sb, j.b.n, j.b.d);
    Slot& target = regs_of[size_t(j.dst)];
    x.b = j.rb >= 0 ? &regs_of[size_t(j.rb)] : &sb;
    if (compound && j.ra < 0) target = sa; // a fresh accumulator
    x.a = compound ? &target : j.ra >= 0 ? &regs_of[size_t(j.ra)] : &sa;
    Expect const e = expect(c, j.kind, x);
    if (!e.ok)
    {
      sim::count("jobs outside the representable domain (skipped)");
      return;
    }
    saved[j.menu] = regs_of; // the log, before anything happens
    model::R const a0 = c.load(*x.a), b0 = c.load(*x.b);
    Slot const b_copy = *x.b;
    Result r;
    sim::work::Cost cost;
    for (int attempts = 0;; ++attempts)
    {
      uint64_t crash = 0;
      if (crash_1_in && attempts < 5 && below(crash_1_in) + 1 == crash_1_in)
        crash = 1 + below(sim::pick({40u, 200u, 1000u}));
      r = Result {};
      sim::work::start({j.budget(), stack_per_value, kind_name(j.kind)}, crash);
      c.exec(j.kind, x, r);
      cost = sim::work::stop();
      if (!cost.crashed) break;
      // the node restarts from its log
      regs[j.menu] = saved[j.menu];
      sim::count("fault:node died during an evaluation");
      spend(crash);
      uint64_t const restart = 10'000 + 1000 * below(100);
      now += restart;
      sim::elapse(restart);
      sim::nontrivial();
    }
    ++evaluations;
    spend(cost.steps);
    sim::ev("value", kind_name(j.kind), c.name, int64_t(a0.n), int64_t(a0.d), int64_t(b0.n), int64_t(b0.d), x.i, x.mode,
            int64_t(r.n), int64_t(r.d), r.v[0], int64_t(cost.steps));
    note(cost, j);
    Args judged = x;
    judged.b = &b_copy;
    calc::judge(c, j.kind, judged, e, a0, r, "in real time");
    if (!compound && r.type == Result::frac && r.v[0] == 0 && same_rep_result(j.kind) && c.limits.fits(r.n)
        && c.limits.fits(r.d))
      c.store(target, r.n, r.d);
  }

  void note(sim::work::Cost const& cost, Job const& j)
  {
    sim::count("steps executed", cost.steps);
    if (cost.steps > 1000) sim::count("probe:an evaluation of more than 1000 steps");
    if (j.text.size() + j.width > 1000) sim::count("probe:a text of more than 1000 characters");
    unsigned log = 0;
    while (cost.steps >> log) ++log;
    shape = sim::mix(shape, uint64_t(j.what) * 8192 + uint64_t(j.kind) * 64 + log);
#ifdef CALIBRATE
    std::fprintf(stderr, "CAL %d %s %llu %zu %zu\n", int(j.what), kind_name(j.kind), (unsigned long long)cost.steps, cost.stack, j.text.size() + j.width);
#endif
  }

  void mask_of(std::ios& s, unsigned mask)
  {
    s.exceptions(mask == 1   ? std::ios::badbit
                 : mask == 2 ? std::ios::failbit
                 : mask == 3 ? std::ios::badbit | std::ios::failbit | std::ios::eofbit
                             : std::ios::goodbit);
  }

  void extract_job(Job const& j)
  {
    auto const& t = dev::stream_type(j.type);
    dev::InDevice in(j.text.data(), j.text.size());
    in.max_chunk = j.chunk;
    in.plan.kind = static_cast<dev::InPlan::Kind>(j.plan);
    in.plan.at = j.plan_at;
    in.plan.count = j.plan_count;
    std::istream is(&in);
    mask_of(is, j.mask);
    i128 n = 3, d = 5;
    sim::work::start({j.budget(), stack_per_value, "an extraction"});
    try { t.read(is, n, d); }
    catch (...) {}
    sim::work::Cost const cost = sim::work::stop();
    spend(cost.steps);
    sim::ev("extract", t.name, int(is.rdstate()), int64_t(n), int64_t(d), int64_t(cost.steps), in.calls, in.failures);
    sim::judge();
    note(cost, j);
    // every chunk is fetched once; the end or an error is met a few times
    if (in.calls > 4 * j.text.size() + 64 || in.failures > 64)
      sim::violation("device kept busy", "%s: a text of %zu characters took %zu requests (%zu after the device had failed)",
                     t.name, j.text.size(), in.calls, in.failures);
  }

  void insert_job(Job const& j)
  {
    auto const& t = dev::stream_type(j.type);
    static char storage[8192];
    dev::OutDevice out(storage, j.chunk);
    out.replace_plan({static_cast<dev::OutPlan::Kind>(j.plan), j.plan_at, j.plan_count});
    std::ostream os(&out);
    mask_of(os, j.mask);
    os.width(j.width);
    sim::work::start({j.budget(), stack_per_value, "an insertion"});
    try { t.write(os, j.n, j.d); }
    catch (...) {}
    sim::work::Cost const cost = sim::work::stop();
    spend(cost.steps);
    sim::ev("insert", t.name, int(os.rdstate()), out.accepted(), int64_t(cost.steps), out.calls, out.failures);
    sim::judge();
    note(cost, j);
    size_t const length = j.width + 64;
    if (out.calls > 4 * length || out.failures > 64)
      sim::violation("device kept busy", "%s: a text of at most %zu characters took %zu requests (%zu of them failed)",
                     t.name, length, out.calls, out.failures);
  }
};

void run()
{
  int ncalcs;
  Calc const* const* const calcs = all(ncalcs);
  Sim& s = *new Sim;
  int const nmenu = static_cast<int>(1 + below(3));
  for (int i = 0; i < nmenu; ++i) s.menu.push_back(calcs[below(static_cast<uint64_t>(ncalcs))]);
  int const nkinds = static_cast<int>(1 + below(6));
  for (int i = 0; i < nkinds; ++i)
  {
    uint64_t const what = below(3);
    s.kinds.push_back(static_cast<int>(what == 0   ? below(cmp_if + 1)
                                       : what == 1 ? trunc_ + below(from_text - trunc_ + 1)
                                                   : below(kind_count)));
  }
  bool const wide = sim::chance(2, 3);
  for (int m = 0; m < nmenu; ++m)
  {
    Calc const& c = *s.menu[size_t(m)];
    s.bits.push_back(static_cast<unsigned>(wide ? 2 + below(c.rep_bits - 1) : 2 + below(c.rep_bits / 2 - 1)));
    s.regs.emplace_back(own_n);
    for (int i = 0; i < own_n; ++i)
    {
      model::R const v = s.hard_value(c, s.bits.back());
      c.store(s.regs.back()[size_t(i)], v.n, v.d);
    }
  }
  s.saved = s.regs;
  s.crash_1_in = sim::pick({0u, 0u, 3u, 15u});
  s.slow_1_in = sim::pick({0u, 2u, 10u});
  bool const lossy = below(2);

  // ---- the network
  std::priority_queue<Arrival> network;
  uint64_t sent_at = 0, seq = 0;
  unsigned const mean = sim::chance(1, 40) ? 120 : sim::chance(1, 6) ? 30 : 6;
  do
  {
    Job j = s.gen();
    if (lossy && below(6) == 5) s.corrupt(j);
    s.jobs.push_back(j);
    sent_at += below(3000);
    uint64_t at = sent_at + 100 + below(400);
    if (lossy && below(4) == 3)
    {
      at += below(100'000);
      sim::count("fault:message delayed");
    }
    while (lossy && below(6) == 5)
    { // the sender hears nothing and repeats it
      at += 20'000;
      sim::count("fault:message lost");
    }
    network.push({at, seq++, s.jobs.size() - 1});
    if (lossy && below(8) == 7)
    {
      network.push({at + below(50'000), seq++, s.jobs.size() - 1});
      sim::count("fault:message repeated");
    }
  } while (sim::more(mean));

  // ---- the node: first come, first served
  size_t done = 0;
  bool touched = false;
  while (!network.empty())
  {
    Arrival const next = network.top();
    network.pop();
    if (s.now < next.time) s.now = next.time;
    s.power();
    Job const& j = s.jobs[next.job];
    sim::ev("job", int(j.what), next.job, int64_t(s.now));
    switch (j.what)
    {
      case Job::value: s.value_job(j); break;
      case Job::extract: s.extract_job(j); break;
      case Job::insert: s.insert_job(j); break;
    }
    touched = true;
    ++done;
  }
  if (touched) sim::nontrivial();
  sim::schedule(s.shape);
  uint64_t h = 0;
  for (int k : s.kinds) h = sim::mix(h, uint64_t(k));
  for (auto const* c : s.menu) h = sim::mix(h, uint64_t(c - calcs[0]));
  h = sim::mix(h, s.crash_1_in * 64 + s.slow_1_in * 2 + lossy);
  sim::state(sim::mix(h, done > 16 ? 16 : done));
}

} // namespace

namespace sim {
World const world = {
  "C24", run,
  "all of include/ieme (8 policies x int64/int32/uint32; stream operators of 10 types): arithmetic, comparison, "
  "queries, reduction, rounding, powers, hash, float/text conversion, stream operators, mixed numbers, chrono; "
  "libstdc++ (its compiled part is not counted)",
  "the network, the node's processor and clock (one basic block of the library = one step), crashes, the stream buffers",
  "a run is a node that evaluates a history of jobs from a faulty network in virtual real time; non-trivial when a "
  "job was evaluated"};
}
