// C14: a long computation that checkpoints its registers as text on a simulated
// disk, is killed anywhere, and resumes on a node that only has the disk.
#include "policy.hpp"
#include "sim.hpp"
#include "tracked.hpp"

#include <algorithm>
#include <cstring>
#include <ieme/ieme.hpp>
#include <new>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>

namespace {

using model::i128;
using model::i64;
using model::Limits;
using model::Q;
using model::R;
using model::Tracker;
using sim::below;

constexpr int nf = 4, nm = 2;

enum Op : int {
  f_add, f_sub, f_mul, f_div, f_mod, f_cadd, f_csub, f_cmul, f_cdiv, f_cmod,
  f_addi, f_muli, f_divi, f_isub,
  f_neg, f_abs, f_recip, f_reduce, f_normal, f_floor, f_ceil, f_trunc, f_round, f_grid, f_input,
  m_make, m_add, m_addf, m_addi, m_neg, m_fraction, ops_n
};
char const* const op_name[] = {"+", "-", "*", "/", "%", "+=", "-=", "*=", "/=", "%=", "+int", "*int", "/int", "int-",
                               "negate", "abs", "reciprocal", "reduce", "normalize_signs", "floor", "ceil", "trunc",
                               "round", "redenominate", "input", "mixed", "mixed+mixed", "mixed+fraction", "mixed+int",
                               "-mixed", "as_fraction"};
static_assert(sizeof op_name / sizeof *op_name == ops_n);

struct Step {
  Op op = f_add;
  int d = 0, a = 0, b = 0; // registers
  i64 i = 0;
  R in;                    // f_input
};

// A checkpoint as text, produced and read by the library's stream operators.
struct Machine {
  virtual ~Machine() = default;
  virtual void scramble() = 0; // what memory looks like on a fresh node
  virtual void step(Step const&) = 0;
  virtual R f(int) = 0;
  virtual void m(int, i128& w, R& f) = 0;
  virtual void write(std::ostream&) = 0;
  virtual bool read(std::istream&) = 0;
};

template <typename Rep, typename Ops>
struct MachineOf : Machine {
  using F = ieme::fraction<Rep, Ops>;
  using M = ieme::mixed_number<Rep, Rep, Ops>;
  F fr[nf];
  M mx[nm];

  void scramble() override
  {
    for (auto& x : fr) x = F(Rep(77), Rep(-13));
    for (auto& x : mx) x = M(Rep(-9), F(Rep(-1), Rep(2)));
  }
  void step(Step const& s) override
  {
    sim::Lib guard;
    bool const to_mixed = s.op >= m_make && s.op < m_fraction;
    F& d = fr[to_mixed ? 0 : s.d];
    F const &a = fr[s.a], &b = fr[s.b];
    auto const i = static_cast<Rep>(s.i);
    M& e = mx[s.d % nm];
    M const &x = mx[s.a % nm], &y = mx[s.b % nm];
    switch (s.op)
    {
      case f_add: d = a + b; break;
      case f_sub: d = a - b; break;
      case f_mul: d = a * b; break;
      case f_div: d = a / b; break;
      case f_mod: d = a % b; break;
      case f_cadd: d += b; break;
      case f_csub: d -= b; break;
      case f_cmul: d *= b; break;
      case f_cdiv: d /= b; break;
      case f_cmod: d %= b; break;
      case f_addi: d = a + i; break;
      case f_muli: d = i * a; break;
      case f_divi: d = a / i; break;
      case f_isub: d = i - a; break;
      case f_neg: d = -a; break;
      case f_abs: d = ieme::abs(a); break;
      case f_recip: d = ieme::reciprocal(a); break;
      case f_reduce: d = ieme::reduce(a); break;
      case f_normal: d = ieme::normalize_signs(a); break;
      case f_floor: d = F(ieme::floor(a)); break;
      case f_ceil: d = F(ieme::ceil(a)); break;
      case f_trunc: d = F(ieme::trunc(a)); break;
      case f_round: d = F(ieme::round(a)); break;
      case f_grid: d = ieme::floor_redenominate(a, i); break;
      case f_input: d = F(static_cast<Rep>(s.in.n), static_cast<Rep>(s.in.d)); break;
      case m_make: e = M(a); break;
      case m_add: e = x + y; break;
      case m_addf: e = s.i & 1 ? x + b : b + x; break;
      case m_addi: e = s.b & 1 ? x + i : i + x; break;
      case m_neg: e = -x; break;
      case m_fraction: d = x.as_fraction(); break;
      default: break;
    }
  }
  R f(int k) override { return {static_cast<i128>(fr[k].num()), static_cast<i128>(fr[k].den())}; }
  void m(int k, i128& w, R& f) override
  {
    w = static_cast<i128>(mx[k].whole());
    f = {static_cast<i128>(mx[k].fractional().num()), static_cast<i128>(mx[k].fractional().den())};
  }
  void write(std::ostream& os) override
  {
    sim::Lib guard;
    for (auto const& x : fr) os << ' ' << x;
    for (auto const& x : mx) os << ' ' << x.whole() << ' ' << x.fractional();
  }
  bool read(std::istream& is) override
  {
    sim::Lib guard;
    for (auto& x : fr) is >> x;
    for (auto& x : mx)
    {
      Rep w {};
      F part;
      is >> w >> part;
      x = M(w, part);
    }
    return !is.fail();
  }
};

struct Kind {
  char const* name;
  model::Policy policy;
  Limits limits;
  Machine* (*create)();
};
template <typename Rep, typename Ops>
Kind kind(char const* name)
{
  return {name, policy_of<Ops>(), {static_cast<i128>(std::numeric_limits<Rep>::max()), true},
          []() -> Machine* { return new MachineOf<Rep, Ops>(); }};
}
Kind const& kind_of(uint64_t i)
{
  using namespace ieme::ops;
  static Kind const all[] = {
    kind<i64, defaults>("int64"), kind<int, defaults>("int32"), kind<i64, safe>("int64"), kind<i64, safe_reduced_i>("int64"),
    kind<int, safe_reduced_i>("int32"), kind<i64, safe_reduced_o>("int64"), kind<i64, fast>("int64"),
    kind<int, fast>("int32"), kind<i64, fast_reduced_i>("int64"), kind<i64, fast_reduced_o>("int64"),
    kind<int, fast_reduced_io>("int32"), kind<i64, fast_reduced_io>("int64")};
  return all[i];
}
constexpr uint64_t kinds = 12;

Kind const* kd;

// ---- the model of the machine ---------------------------------------------------
struct State {
  R f[nf];
  i128 w[nm];
  R m[nm];
};

bool fix(Tracker& k, i128& w, R& s)
{
  Limits const& l = kd->limits;
  if (!k.ok || !l.fits(2 * model::iabs(s.n) + 2 * model::iabs(s.d)) || !l.fits(model::iabs(w) + 4)) return k.ok = false;
  i128 const t = model::qtrunc(s.q());
  if (t != 0)
  {
    s = k.ri(model::minus_, s, t);
    w += t;
  }
  if (w > 0 && s.q().n < 0)
  {
    w -= 1;
    s = k.ir(model::plus_, 1, s);
  }
  else if (w < 0 && s.q().n > 0)
  {
    w += 1;
    s = k.ir(model::plus_, -1, s);
  }
  return k.ok;
}

R negate(R r)
{
  r.n = -r.n;
  if (kd->policy.reduce_out)
  {
    Q const q = r.q();
    return {q.n, q.d};
  }
  return r;
}

// Performs a step on the model; false: outside the property's domain.
bool step_model(State& s, Step const& p)
{
  Limits const& l = kd->limits;
  Tracker k {kd->policy, l};
  R const a = s.f[p.a], b = s.f[p.b];
  R out;
  switch (p.op)
  {
    case f_add: out = k.add(a, b); break;
    case f_sub: out = k.sub(a, b); break;
    case f_mul: out = k.mul(a, b); break;
    case f_div: if (b.n == 0) return false; out = k.div(a, b); break;
    case f_mod: if (b.n == 0) return false; out = k.mod(a, b); break;
    case f_cadd: out = k.add(s.f[p.d], b); break;
    case f_csub: out = k.sub(s.f[p.d], b); break;
    case f_cmul: out = k.mul(s.f[p.d], b); break;
    case f_cdiv: if (b.n == 0) return false; out = k.div(s.f[p.d], b); break;
    case f_cmod: if (b.n == 0) return false; out = k.mod(s.f[p.d], b); break;
    case f_addi: out = k.ri(model::plus_, a, p.i); break;
    case f_muli: out = k.ir(model::times_, p.i, a); break;
    case f_divi: if (p.i == 0) return false; out = k.ri(model::over_, a, p.i); break;
    case f_isub: out = k.ir(model::minus_, p.i, a); break;
    case f_neg: out = negate(a); break;
    case f_abs: out = a.q().n < 0 ? negate(a) : a; break;
    case f_recip: if (a.n == 0) return false; out = {a.d, a.n}; break;
    case f_reduce: { Q const q = a.q(); out = {q.n, q.d}; break; }
    case f_normal: out = a.d < 0 ? R {-a.n, -a.d} : a; break;
    case f_floor: out = {model::qfloor(a.q()), 1}; break;
    case f_ceil: out = {model::qceil(a.q()), 1}; break;
    case f_trunc: out = {model::qtrunc(a.q()), 1}; break;
    case f_round:
      if (!model::in_domain_round(kd->policy, l, a)) return false;
      out = {model::qround(a.q()), 1};
      break;
    case f_grid:
    {
      if (p.i <= 0) return false;
      R const scaled = k.ri(model::times_, a, p.i);
      if (!k.ok) return false;
      out = {model::qfloor(scaled.q()), p.i};
      break;
    }
    case f_input: out = p.in; break;
    case m_make: case m_add: case m_addf: case m_addi: case m_neg:
    {
      i128 w = 0;
      R f;
      int const x = p.a % nm, y = p.b % nm;
      switch (p.op)
      {
        case m_make:
          w = model::qtrunc(a.q());
          f = k.ri(model::minus_, a, w);
          break;
        case m_add:
          w = s.w[x] + s.w[y];
          f = k.add(s.m[x], s.m[y]);
          break;
        case m_addf:
        {
          i128 const t = model::qtrunc(b.q());
          R const g = k.ri(model::minus_, b, t);
          w = s.w[x] + t;
          f = k.add(s.m[x], g);
          break;
        }
        case m_addi:
          w = s.w[x] + p.i;
          f = s.m[x];
          break;
        default:
          w = -s.w[x];
          f = negate(s.m[x]);
      }
      if (!fix(k, w, f)) return false;
      s.w[p.d % nm] = w;
      s.m[p.d % nm] = f;
      return true;
    }
    case m_fraction:
    {
      int const x = p.a % nm;
      if (!l.fits(model::iabs(s.w[x] * s.m[x].d) + model::iabs(s.m[x].n))) return false;
      out = k.ir(model::plus_, s.w[x], s.m[x]);
      break;
    }
    default: return false;
  }
  if (!k.ok || out.d == 0 || !l.fits(out.n) || !l.fits(out.d)) return false;
  s.f[p.d] = out;
  return true;
}

// The representation is the library's business where the policy does not fix
// it, so the model follows the machine's, after comparing the values.
void compare(Machine& x, State& s, char const* when, size_t step, Op op)
{
  sim::judge();
  for (int i = 0; i < nf; ++i)
  {
    R const r = x.f(i);
    if (r.d == 0 || !model::same(r.q(), s.f[i].q()))
      sim::violation("inexact", "%s<%s>, %s step %zu (%s): register f%d holds %s/%s instead of %s/%s", kd->policy.name, kd->name,
                     when, step, op_name[op], i, model::text(r.n).c_str(), model::text(r.d).c_str(),
                     model::text(s.f[i].n).c_str(), model::text(s.f[i].d).c_str());
    s.f[i] = r;
  }
  for (int i = 0; i < nm; ++i)
  {
    i128 w;
    R r;
    x.m(i, w, r);
    if (w != s.w[i] || r.d == 0 || !model::same(r.q(), s.m[i].q()))
      sim::violation("inexact", "%s<%s>, %s step %zu (%s): register m%d holds %s + %s/%s instead of %s + %s/%s",
                     kd->policy.name, kd->name, when, step, op_name[op], i, model::text(w).c_str(), model::text(r.n).c_str(),
                     model::text(r.d).c_str(), model::text(s.w[i]).c_str(), model::text(s.m[i].n).c_str(),
                     model::text(s.m[i].d).c_str());
    s.m[i] = r;
  }
}

// ---- the disk --------------------------------------------------------------------
struct File {
  std::string durable, cached;
};
struct Disk {
  File slot[2];
  size_t space = 4096;   // bytes the next write may take
  size_t fail_at = SIZE_MAX; // byte of the next write that fails
};

struct DiskBuf : std::streambuf {
  DiskBuf(Disk& d, File& f, unsigned buffer) : disk(d), file(f), n(buffer)
  {
    if (n) setp(buf, buf + n);
  }
  bool put(char c)
  {
    if (file.cached.size() >= disk.space)
    {
      sim::count("fault:disk full");
      return false;
    }
    if (file.cached.size() >= disk.fail_at)
    {
      sim::count("fault:write error");
      return false;
    }
    file.cached += c;
    return true;
  }
  bool drain()
  {
    for (char* p = pbase(); p < pptr(); ++p)
      if (!put(*p))
      {
        setp(buf, buf + n);
        return false;
      }
    setp(buf, buf + n);
    return true;
  }
  int_type overflow(int_type c) override
  {
    if (n == 0) return put(static_cast<char>(c)) ? c : traits_type::eof();
    if (!drain()) return traits_type::eof();
    *pptr() = static_cast<char>(c);
    pbump(1);
    return c;
  }
  int sync() override { return n == 0 || drain() ? 0 : -1; }
  Disk& disk;
  File& file;
  unsigned n;
  char buf[64];
};

// A crash: what was not synced survives in part.
void crash(Disk& d)
{
  for (auto& f : d.slot)
  {
    if (f.cached != f.durable)
    {
      constexpr size_t sector = 16;
      switch (below(4))
      {
        case 0: // nothing of it
          sim::count("fault:unsynced write lost");
          f.cached = f.durable;
          break;
        case 1: break; // all of it
        case 2: // torn
          sim::count("fault:torn write");
          f.cached.resize(below(f.cached.size() + 1));
          break;
        default: // sectors reach the disk in any order
        {
          sim::count("fault:sectors lost");
          for (size_t at = 0; at < f.cached.size(); at += sector)
            if (below(3) == 0)
              for (size_t i = at; i < at + sector && i < f.cached.size(); ++i)
                f.cached[i] = i < f.durable.size() && below(2) == 0 ? '\0' : '\0';
        }
      }
    }
    f.durable = f.cached;
  }
}

bool write_checkpoint(Disk& d, Machine& x, size_t step, int slot)
{
  File& f = d.slot[slot];
  f.cached.clear();
  DiskBuf buf(d, f, static_cast<unsigned>(below(2) ? below(sizeof DiskBuf::buf) : 0));
  std::ostream os(&buf);
  os << "checkpoint " << step;
  x.write(os);
  os << " end\n" << std::flush;
  sim::elapse(100000);
  return !os.fail();
}

bool read_checkpoint(std::string const& text, Machine& x, size_t& step)
{
  std::istringstream is(text);
  std::string word;
  if (!(is >> word >> step) || word != "checkpoint") return false;
  x.scramble();
  if (!x.read(is)) return false;
  word.clear();
  char c = 0;
  return is >> word && word == "end" && is.get(c) && c == '\n';
}

void run()
{
  kd = &kind_of(below(kinds));
  Limits const& l = kd->limits;
  bool const narrow = l.max <= INT32_MAX;
  bool const grows = !kd->policy.reduce_in && !kd->policy.reduce_out;
  unsigned const mean = sim::chance(1, 20) ? 400 : 30;
  sim::ev("machine", kd->policy.name, kd->name);
  uint64_t shape = 0;

  // ---- the program, and the uninterrupted run
  auto const input = [&] {
    R r {i128(below(narrow ? 60 : 1000)), 1 + i128(below(narrow ? 12 : 100))};
    if (below(2)) r.n = -r.n;
    if (below(4) == 0) r = {-r.n, -r.d};
    return r;
  };
  Machine* const reference = kd->create();
  State s {};
  for (auto& r : s.f) r = {0, 1};
  for (auto& r : s.m) r = {0, 1};
  std::vector<Step> program;
  for (int i = 0; i < nf; ++i)
  {
    Step p;
    p.op = f_input;
    p.d = i;
    p.in = input();
    program.push_back(p);
    reference->step(p);
    step_model(s, p);
  }
  do
  {
    Step p;
    bool ok = false;
    for (int tries = 0; tries < 4 && !ok; ++tries)
    {
      p.op = static_cast<Op>(below(ops_n));
      p.d = static_cast<int>(below(nf));
      p.a = static_cast<int>(below(nf));
      p.b = static_cast<int>(below(nf));
      p.i = static_cast<i64>(below(40)) - 12;
      if (p.op == f_input) p.in = input();
      State t = s;
      ok = step_model(t, p);
      // keep the numbers from exploding
      if (ok && grows && p.op < f_neg && below(2)) ok = false;
      for (auto const& r : t.f)
        if (model::iabs(r.n) > l.max / 4 || model::iabs(r.d) > l.max / 4) ok = ok && below(8) == 0;
      if (ok) s = t;
    }
    if (!ok)
    {
      p = Step {};
      p.op = f_input;
      p.d = static_cast<int>(below(nf));
      p.in = input();
      step_model(s, p);
    }
    reference->step(p);
    program.push_back(p);
    sim::ev("program", p.op, p.d, p.a, p.b, p.i);
    compare(*reference, s, "uninterrupted", program.size(), p.op);
  } while (sim::more(mean));

  // ---- the run with faults
  Disk disk;
  Machine* node = kd->create();
  size_t pc = 0;
  size_t acked = 0;      // steps covered by the newest acknowledged checkpoint
  bool have_ack = false;
  int ack_slot = 1;
  int crashes = 0;
  int const max_crashes = static_cast<int>(1 + below(8));
  unsigned const crash_rate = sim::pick({30u, 8u, 100u});
  unsigned const checkpoint_rate = sim::pick({4u, 10u, 30u});
  size_t executed = 0;
  while (pc < program.size())
  {
    if (++executed > (program.size() + 8) * 12)
      sim::violation("no progress", "%zu steps executed, %zu of %zu done after the faults stopped", executed, pc, program.size());
    node->step(program[pc++]);
    sim::elapse(10000);
    bool die = crashes < max_crashes && sim::chance(1, crash_rate);
    if (below(checkpoint_rate) == 0 && !die)
    {
      int const slot = 1 - ack_slot;
      disk.space = sim::chance(1, 12) ? below(300) : 4096;
      disk.fail_at = sim::chance(1, 12) ? below(200) : SIZE_MAX;
      bool ok = write_checkpoint(disk, *node, pc, slot);
      sim::ev("checkpoint", pc, slot, ok, disk.slot[slot].cached);
      // a crash between the write and the sync, or between the sync and the acknowledgement
      uint64_t const moment = crashes < max_crashes ? below(12) : 3;
      if (moment == 0) die = true;
      else if (ok)
      {
        if (sim::chance(1, 15))
        {
          sim::count("fault:sync fails");
        }
        else
        {
          disk.slot[slot].durable = disk.slot[slot].cached;
          if (moment == 1) die = true;
          else
          {
            acked = pc;
            have_ack = true;
            ack_slot = slot;
            sim::count("checkpoints acknowledged");
          }
        }
      }
    }
    if (die)
    {
      ++crashes;
      sim::count("fault:crash");
      sim::nontrivial();
      shape = sim::mix(shape, pc);
      crash(disk);
      // the other node
      delete node;
      node = kd->create();
      size_t best = 0;
      int best_slot = -1;
      for (int i = 0; i < 2; ++i)
      {
        size_t step = 0;
        if (read_checkpoint(disk.slot[i].durable, *node, step))
        {
          if (best_slot < 0 || step > best)
          {
            best = step;
            best_slot = i;
          }
        }
        else if (!disk.slot[i].durable.empty()) sim::count("probe:damaged checkpoint recognised");
      }
      sim::judge();
      if (have_ack && (best_slot < 0 || best < acked))
        sim::violation("acknowledged checkpoint lost", "%s<%s>: the checkpoint of step %zu was acknowledged but %s; slots \"%s\" and \"%s\"",
                       kd->policy.name, kd->name, acked, best_slot < 0 ? "none can be read" : "an older one is restored",
                       disk.slot[0].durable.c_str(), disk.slot[1].durable.c_str());
      if (best_slot < 0)
      {
        node->scramble();
        pc = 0;
        delete node;
        node = kd->create();
      }
      else
      {
        size_t step = 0;
        if (!read_checkpoint(disk.slot[best_slot].durable, *node, step)) sim::violation("unstable checkpoint", "read once, not twice");
        pc = step;
        if (pc > program.size())
          sim::violation("fabricated checkpoint", "%s<%s>: restored step %zu of %zu from \"%s\"", kd->policy.name, kd->name, pc,
                         program.size(), disk.slot[best_slot].durable.c_str());
        acked = pc;
        have_ack = true;
        ack_slot = best_slot;
      }
      sim::ev("resumed", pc);
    }
  }
  sim::judge();
  for (int i = 0; i < nf; ++i)
  {
    R const r = node->f(i), want = reference->f(i);
    if (r.n != want.n || r.d != want.d)
      sim::violation("different end", "%s<%s>: register f%d ends as %s/%s, uninterrupted as %s/%s (%d crashes)", kd->policy.name,
                     kd->name, i, model::text(r.n).c_str(), model::text(r.d).c_str(), model::text(want.n).c_str(),
                     model::text(want.d).c_str(), crashes);
  }
  for (int i = 0; i < nm; ++i)
  {
    i128 w, w2;
    R r, want;
    node->m(i, w, r);
    reference->m(i, w2, want);
    if (w != w2 || r.n * want.d != want.n * r.d || r.d == 0)
      sim::violation("different end", "%s<%s>: register m%d ends as %s + %s/%s, uninterrupted as %s + %s/%s", kd->policy.name,
                     kd->name, i, model::text(w).c_str(), model::text(r.n).c_str(), model::text(r.d).c_str(),
                     model::text(w2).c_str(), model::text(want.n).c_str(), model::text(want.d).c_str());
  }
  sim::ev("end", crashes);
  sim::schedule(sim::mix(shape, program.size()));
  sim::state(sim::mix(shape, uint64_t(program.back().op)));
  delete node;
  delete reference;
}

} // namespace

namespace sim {
World const world = {
  "C14", run,
  "fraction and mixed_number operations, the stream operators (8 policies, int64/int32), std streams",
  "the disk (full, write errors, failed syncs, torn, lost and out-of-order writes), node crashes",
  "a run executes a random program of operations with checkpoints and crashes; non-trivial when the node crashed"};
}
