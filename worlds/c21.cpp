// C21: a cluster whose nodes run different integer types and arithmetic
// policies and are upgraded (or rolled back) one at a time, across crashes,
// behind a network that loses, duplicates, reorders and partitions.
#include "het.hpp"
#include "tracked.hpp"

#include <cmath>
#include <cstring>
#include <vector>

namespace {

using namespace het;
using sim::below;

constexpr int registers = 3;
Table const* const* tables;

struct Node {
  int policy = 0, rep = 0;
  Val reg[registers];
  Q exact[registers];
  std::string name() const { return std::string(tables[policy]->policy.name) + "/" + het::rep[rep].name; }
  Table const& t() const { return *tables[policy]; }
  One const& one() const { return t().one[rep]; }
};

enum Form { typed, raw_text, as_double };
struct Message {
  int policy, rep, from;
  Val value;
  Q exact;
  Form form;
  char text[48];
  unsigned size = 0;
  double real = 0;
};

unsigned width(i128 v)
{
  unsigned n = 0;
  for (v = model::iabs(v); v; v >>= 1) ++n;
  return n;
}
// the model's 128 bits suffice for products of these
bool modest(R a, R b) { return std::max(width(a.n), width(a.d)) + std::max(width(b.n), width(b.d)) <= 124; }
bool fits(Limits const& l, R r) { return l.fits(r.n) && l.fits(r.d); }

i128 magnitude(unsigned bits)
{
  unsigned const n = static_cast<unsigned>(below(bits + 1));
  if (n == 0) return i128(below(2));
  i128 const v = (i128(1) << (n - 1)) + i128(below(n > 1 ? uint64_t(1) << (n - 1) : 1));
  switch (below(12))
  {
    case 0: return i128(1) << (n - 1);
    case 1: return (i128(1) << n) - 1;
    default: return v;
  }
}

R generate(int r, unsigned bits)
{
  RepInfo const& x = rep[r];
  bits = std::min(bits, x.bits);
  R v {magnitude(bits), magnitude(below(3) ? bits : bits / 4)};
  if (v.d == 0) v.d = 1;
  if (x.limits.is_signed)
  {
    uint64_t const s = below(4);
    if (s & 1) v.n = -v.n;
    if (s & 2) v.d = -v.d;
  }
  return v;
}

void check(Node const& n, int r, char const* after)
{
  R const got = n.one().load(n.reg[r]);
  sim::judge();
  if (got.d == 0 || !model::same(got.q(), n.exact[r]))
    sim::violation("value changed", "register of node %s holds %s/%s after %s instead of %s", n.name().c_str(),
                   model::text(got.n).c_str(), model::text(got.d).c_str(), after, model::text(n.exact[r]).c_str());
}

char const* const op_name[] = {"+", "-", "*", "/", "%"};
model::Arith const op_of[] = {model::plus_, model::minus_, model::times_, model::over_, model::mod_};

std::string show(int r, R v, bool integer)
{
  return std::string(rep[r].name) + " " + model::text(v.n) + (integer ? "" : "/" + model::text(v.d));
}

// Are the terms of `a op b` in the common type's range?
bool in_domain(Table const& t, Limits const& l, int op, int how, R a, R b)
{
  if (!modest(a, b)) return false;
  switch (how)
  {
    case 0: return fits(l, a) && fits(l, b) && model::in_domain(t.policy, l, op_of[op], a, b);
    case 1: return fits(l, a) && l.fits(b.n) && model::in_domain_ri(t.policy, l, op_of[op], a, b.n);
    default: return l.fits(a.n) && fits(l, b) && model::in_domain_ir(t.policy, l, op_of[op], a.n, b);
  }
}

// All mixed evaluations of a (rep i) and b (rep j) under one policy.
void evaluate(Table const& t, int i, Val const& a, int j, Val const& b)
{
  Pair const& p = t.pair[i][j];
  R const x = t.one[i].load(a), y = t.one[j].load(b);
  Limits const& l = rep[common(i, j)].limits;
  int const how = static_cast<int>(below(3));
  Q const qx = how == 2 ? Q {x.n, 1} : x.q(), qy = how == 1 ? Q {y.n, 1} : y.q();
  auto const say = [&](char const* op) {
    return std::string(t.policy.name) + ": " + show(i, x, how == 2) + " " + op + " " + show(j, y, how == 1);
  };
  // ---- comparison
  bool ok = modest(x, y);
  if (ok)
    switch (how)
    {
      case 0: ok = fits(l, x) && fits(l, y) && model::in_domain_cmp(t.policy, l, x, y); break;
      case 1: ok = fits(l, x) && l.fits(y.n) && model::in_domain_cmp_int(t.policy, l, x, y.n); break;
      default: ok = l.fits(x.n) && fits(l, y) && model::in_domain_cmp_int(t.policy, l, y, x.n); break;
    }
  if (ok)
  {
    int const got = p.cmp(a, b, how), want = model::six(qx, qy);
    sim::judge();
    if (got != want)
      sim::violation("comparison", "%s answers %#x instead of %#x", say("<=>").c_str(), got, want);
    if (i != j) sim::count("probe:comparison of different integer types");
  }
  // ---- arithmetic
  int const op = static_cast<int>(below(5));
  if (in_domain(t, l, op, how, x, y))
  {
    Result const got = p.arith(a, b, op, how);
    Q const want = model::exact(op_of[op], qx, qy);
    sim::judge();
    sim::ev("evaluate", t.policy.name, rep[i].name, op_name[op], rep[j].name, how);
    if (want.defined() ? got.parts.d == 0 || !model::same(got.parts.q(), want) : got.parts.d != 0)
      sim::violation("arithmetic", "%s gives %s/%s in %u %s bytes instead of %s", say(op_name[op]).c_str(),
                     model::text(got.parts.n).c_str(), model::text(got.parts.d).c_str(), got.size,
                     got.is_signed ? "signed" : "unsigned", model::text(want).c_str());
    RepInfo const& c = rep[common(i, j)];
    if (got.size * 8 != c.bits + c.limits.is_signed || got.is_signed != c.limits.is_signed)
      sim::violation("arithmetic", "%s is formed in %u %s bytes instead of %s", say(op_name[op]).c_str(), got.size,
                     got.is_signed ? "signed" : "unsigned", c.name);
    if (t.policy.reduce_out && want.defined())
    {
      bool canonical = model::igcd(got.parts.n, got.parts.d) == 1;
      if (t.sign_normalized) canonical = canonical && got.parts.d > 0;
      if (!canonical)
        sim::violation("not reduced", "%s gives %s/%s", say(op_name[op]).c_str(), model::text(got.parts.n).c_str(),
                       model::text(got.parts.d).c_str());
    }
    if (i != j) sim::count("probe:arithmetic of different integer types");
  }
  // ---- hand over as a mixed number
  Mixed m;
  i128 const whole = model::qtrunc(x.q());
  if (rep[j].limits.fits(whole) && rep[i].limits.fits(whole) &&
      model::in_domain_ri(t.policy, rep[i].limits, model::minus_, x, whole))
  {
    m = p.mixed(a, static_cast<int>(below(4)));
    sim::judge();
    Q const rest = model::sub(x.q(), {whole, 1});
    if (m.whole != whole || m.fractional.d == 0 || !model::same(m.fractional.q(), rest))
      sim::violation("mixed number", "%s: %s as a mixed number with %s whole part is %s and %s/%s", t.policy.name,
                     show(i, x, false).c_str(), rep[j].name, model::text(m.whole).c_str(),
                     model::text(m.fractional.n).c_str(), model::text(m.fractional.d).c_str());
    if (l.fits(m.whole) && fits(l, m.fractional) &&
        model::in_domain_ir(t.policy, l, model::plus_, m.whole, m.fractional) &&
        (m.back.d == 0 || !model::same(m.back.q(), x.q())))
      sim::violation("mixed number", "%s: %s through a mixed number with %s whole part becomes %s/%s", t.policy.name,
                     show(i, x, false).c_str(), rep[j].name, model::text(m.back.n).c_str(), model::text(m.back.d).c_str());
  }
}

// Brings a value of another type and policy to a node. false: it does not fit.
bool bring(Node const& n, Message const& m, Val& to)
{
  R const parts = tables[m.policy]->one[m.rep].load(m.value);
  int const how = static_cast<int>(below(4));
  switch (m.form)
  {
    case raw_text:
      if (!fits(rep[n.rep].limits, parts)) return false;
      if (!n.one().read(to, m.text, m.size))
        sim::violation("unreadable", "node %s cannot read \"%.*s\"", n.name().c_str(), static_cast<int>(m.size), m.text);
      break;
    case as_double:
    {
      to = n.one().from_double(m.real);
      R const got = n.one().load(to);
      sim::judge();
      if (rep[n.rep].limits.fits(m.exact)) break;
      if (got.d != 0)
        sim::violation("value fabricated", "node %s takes %a for %s/%s", n.name().c_str(), m.real,
                       model::text(got.n).c_str(), model::text(got.d).c_str());
      return false;
    }
    case typed:
      if (!fits(rep[n.rep].limits, parts)) return false;
      if (m.policy == n.policy) to = n.t().pair[m.rep][n.rep].convert(m.value, how);
      else if (how == 3)
      { // the policy first, the type afterwards
        Val const v = n.t().import[m.policy][m.rep][m.rep](m.value, static_cast<int>(below(3)));
        to = n.t().pair[m.rep][n.rep].convert(v, static_cast<int>(below(4)));
      }
      else to = n.t().import[m.policy][m.rep][n.rep](m.value, how);
      break;
  }
  R const got = n.one().load(to);
  sim::judge();
  if (got.d == 0 || !model::same(got.q(), m.exact))
    sim::violation("value changed", "%s/%s: %s reaches node %s as %s/%s", tables[m.policy]->policy.name, rep[m.rep].name,
                   model::text(m.exact).c_str(), n.name().c_str(), model::text(got.n).c_str(), model::text(got.d).c_str());
  return true;
}

Message message(Node const& n, int r, int from)
{
  Message m {n.policy, n.rep, from, n.reg[r], n.exact[r], typed, {}, 0, 0};
  m.form = static_cast<Form>(below(3));
  if (m.form == as_double)
  {
    bool const dyadic = (m.exact.d & (m.exact.d - 1)) == 0;
    if (!dyadic || width(m.exact.n) > 53 || width(m.exact.d) > 53) m.form = typed;
    else
    {
      m.real = n.one().to_double(m.value);
      double const want = static_cast<double>(static_cast<i64>(m.exact.n)) / static_cast<double>(static_cast<i64>(m.exact.d));
      sim::judge();
      if (m.real != want)
        sim::violation("value changed", "node %s sends %s as %a", n.name().c_str(), model::text(m.exact).c_str(), m.real);
      sim::count("probe:handed over as a binary float");
    }
  }
  if (m.form == raw_text)
  {
    m.size = n.one().write(m.value, m.text, sizeof m.text);
    R const p = n.one().load(m.value);
    std::string const want = model::text(p.n) + "/" + model::text(p.d);
    sim::judge();
    if (want != std::string(m.text, m.size))
      sim::violation("text", "node %s writes %s as \"%.*s\"", n.name().c_str(), want.c_str(), static_cast<int>(m.size), m.text);
  }
  return m;
}

void run()
{
  tables = all();
  int const nodes = 2 + static_cast<int>(below(3));
  unsigned const bits = sim::pick({8u, 4u, 16u, 31u, 48u, 64u});
  std::vector<Node> node(static_cast<size_t>(nodes));
  uint64_t shape = 0;
  for (auto& n : node)
  {
    n.policy = static_cast<int>(below(3) ? static_cast<uint64_t>(node[0].policy) : below(policies));
    if (&n == &node[0]) n.policy = static_cast<int>(below(policies));
    n.rep = static_cast<int>(below(reps));
    sim::ev("node", n.name());
    for (int r = 0; r < registers; ++r)
    {
      R const v = generate(n.rep, bits);
      n.reg[r] = n.one().store(v);
      n.exact[r] = v.q();
      check(n, r, "the start");
    }
  }
  std::vector<Message> net;
  std::vector<char> cut(static_cast<size_t>(nodes));
  do
  {
    int const at = static_cast<int>(below(static_cast<uint64_t>(nodes)));
    Node& n = node[static_cast<size_t>(at)];
    switch (below(8))
    {
      case 0:
      case 1:
      { // send a register
        if (net.size() < 12)
        {
          net.push_back(message(n, static_cast<int>(below(registers)), at));
          if (sim::chance(1, 6))
          {
            net.push_back(net.back());
            sim::count("fault:duplicated message");
          }
        }
        break;
      }
      case 2:
      case 3:
      case 4:
      { // something arrives
        if (net.empty()) break;
        size_t const k = sim::chance(1, 2) ? below(net.size()) : 0;
        if (k) sim::count("fault:reordered message");
        Message const m = net[k];
        net.erase(net.begin() + static_cast<std::ptrdiff_t>(k));
        if (sim::chance(1, 10))
        {
          sim::count("fault:lost message");
          break;
        }
        if (cut[static_cast<size_t>(at)] || cut[static_cast<size_t>(m.from)])
        {
          sim::count("fault:message lost in a partition");
          break;
        }
        int const r = static_cast<int>(below(registers));
        if (m.policy != n.policy || m.rep != n.rep) sim::nontrivial();
        sim::ev("deliver", tables[m.policy]->policy.name, rep[m.rep].name, m.form, n.name(), r);
        shape = sim::mix(shape, static_cast<uint64_t>(((m.policy * reps + m.rep) * policies + n.policy) * reps + n.rep) * 3 + m.form);
        // operate on it in its own type, where the policies agree
        if (m.policy == n.policy)
        {
          evaluate(n.t(), n.rep, n.reg[r], m.rep, m.value);
          evaluate(n.t(), m.rep, m.value, n.rep, n.reg[r]);
        }
        int const op = static_cast<int>(below(6)); // 5: take it over
        if (op == 5 || m.policy != n.policy)
        {
          Val v;
          if (!bring(n, m, v))
          {
            sim::count("probe:a value does not fit the receiver's type");
            break;
          }
          if (m.policy != n.policy) sim::count("probe:handed over between policies");
          n.reg[r] = v;
          n.exact[r] = m.exact;
          check(n, r, "taking a value over");
          break;
        }
        // compound assignment with the foreign type
        int const how = static_cast<int>(below(2));
        R const a = n.one().load(n.reg[r]), b = n.t().one[m.rep].load(m.value);
        Limits const& l = rep[n.rep].limits;
        if (!in_domain(n.t(), l, op, how, a, b)) break;
        Q const want = model::exact(op_of[op], a.q(), how ? Q {b.n, 1} : b.q());
        if (how == 0 && b.d == 0) break;
        Val v = n.reg[r];
        n.t().pair[n.rep][m.rep].assign(v, m.value, op, how);
        R const got = n.one().load(v);
        sim::judge();
        if (want.defined() ? got.d == 0 || !model::same(got.q(), want) : got.d != 0)
          sim::violation("compound assignment", "%s: %s %s= %s gives %s/%s instead of %s", n.t().policy.name,
                         show(n.rep, a, false).c_str(), op_name[op], show(m.rep, b, how).c_str(), model::text(got.n).c_str(),
                         model::text(got.d).c_str(), model::text(want).c_str());
        if (want.defined())
        {
          n.reg[r] = v;
          n.exact[r] = want;
          check(n, r, "a compound assignment");
        }
        break;
      }
      case 5:
      { // crash, restart with another type or policy
        Node up = n;
        if (below(3)) up.rep = static_cast<int>(below(reps));
        if (below(3) == 0) up.policy = static_cast<int>(below(policies));
        sim::count("fault:crash and restart");
        bool all_fit = true;
        for (int r = 0; r < registers && all_fit; ++r)
        {
          Message m = message(n, r, at);
          all_fit = bring(up, m, up.reg[r]);
        }
        if (!all_fit)
        {
          sim::count("fault:upgrade rolled back");
          break;
        }
        if (up.rep != n.rep || up.policy != n.policy)
        {
          sim::count("fault:restart with another type or policy");
          sim::nontrivial();
        }
        n = up;
        sim::ev("restart", n.name());
        for (int r = 0; r < registers; ++r) check(n, r, "a restart");
        break;
      }
      case 6:
      { // a new value
        int const r = static_cast<int>(below(registers));
        R const v = generate(n.rep, bits);
        n.reg[r] = n.one().store(v);
        n.exact[r] = v.q();
        check(n, r, "storing");
        break;
      }
      default:
        if (sim::chance(1, 3))
        {
          cut[static_cast<size_t>(at)] ^= 1;
          if (cut[static_cast<size_t>(at)]) sim::count("fault:partition");
        }
        break;
    }
  } while (sim::more(40));
  // the faults stop: everything still under way arrives everywhere
  for (auto const& m : net)
    for (auto const& n : node)
    {
      Val v;
      bring(n, m, v);
    }
  for (auto const& n : node)
    for (int r = 0; r < registers; ++r) check(n, r, "the end");
  sim::schedule(shape);
  sim::state(shape);
}

} // namespace

namespace sim {
World const world = {
  "C21", run,
  "fractions of 5 integer types under 10 policies: conversions between all of them, mixed arithmetic, compound "
  "assignment, comparison, mixed numbers, the stream operators, float conversion",
  "the network between the nodes, crashes and restarts with another type or policy",
  "a run drives 2-4 nodes over a history of messages, restarts and partitions; non-trivial when a value reached a node "
  "of another type or policy"};
}
