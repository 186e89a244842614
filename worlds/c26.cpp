// C26: every stage of a program's life. The simulator owns the initialisers of
// static objects in the objects that contain the library, the list of exit
// handlers and the list of thread-exit handlers, and runs evaluations before,
// between and after them.
#include "calc.hpp"
#include "sim.hpp"

#include <cstring>

namespace {
using namespace calc;
using sim::below;

// ---- what the runtime would own ------------------------------------------------------
// (check.py gives the sections of initialisers this name, and redirects the
// registration of destructors here)
struct Handler {
  void (*f)(void*) = nullptr;
  void* arg = nullptr;
  bool ours = false;
};
struct Handlers {
  Handler list[4096];
  int n = 0;
  void push(Handler h)
  {
    if (n == 4096) sim::discard("too many exit handlers");
    list[n++] = h;
  }
};
Handlers at_exit, at_thread_exit;
bool in_program = false;

} // namespace

extern "C" {
extern void (*__start_lib_init[])() __attribute__((weak));
extern void (*__stop_lib_init[])() __attribute__((weak));

int life_cxa_atexit(void (*f)(void*), void* arg, void*)
{
  at_exit.push({f, arg, false});
  sim::count("probe:a static object of the library");
  return 0;
}
int life_cxa_thread_atexit(void (*f)(void*), void* arg, void*)
{
  at_thread_exit.push({f, arg, false});
  sim::count("probe:a thread-local object of the library");
  return 0;
}
int life_atexit(void (*f)())
{
  at_exit.push({reinterpret_cast<void (*)(void*)>(f), nullptr, false});
  return 0;
}

#define EACH(F) F(safe) F(safe_reduced_i) F(safe_reduced_o) F(safe_reduced_io) F(fast) F(fast_reduced_i) \
                F(fast_reduced_o) F(fast_reduced_io)
#define DECLARE(p) void calc_make_##p##_i64(calc::Calc*); void calc_make_##p##_i32(calc::Calc*); void calc_make_##p##_u32(calc::Calc*);
EACH(DECLARE)
}

namespace {

Calc calcs[24];

// ---- the program ------------------------------------------------------------------------
char const* stage = "";
unsigned bits;
int kinds[6], nkinds;
uint64_t history, evaluations;

// An evaluation made at one stage, and made again at later ones.
struct Record {
  bool used = false;
  Calc const* c;
  int kind;
  Slot a, b;
  Args args;
  TextBuffer text;
  Result result;
  char const* stage;
};
Record records[8];

bool same_text(int kind, Result const& a, Result const& b)
{
  if (kind != to_float_ && kind != to_double_ && kind != to_long_double_)
    return std::memcmp(a.text, b.text, sizeof a.text) == 0;
  long double x, y; // (with bytes of padding)
  std::memcpy(&x, a.text, sizeof x);
  std::memcpy(&y, b.text, sizeof y);
  return x == y || (x != x && y != y);
}

void again()
{
  Record& k = records[below(8)];
  if (!k.used) return;
  Slot a = k.a, b = k.b;
  Args x = k.args;
  x.a = &a;
  x.b = &b;
  if (x.text) x.text = k.text.data;
  Result r;
  k.c->exec(k.kind, x, r);
  ++evaluations;
  sim::judge();
  sim::ev("again", stage, kind_name(k.kind), k.c->name, int64_t(r.n), int64_t(r.d), r.v[0]);
  if (stage != k.stage) sim::count("evaluations repeated at a later stage");
  if (r.type != k.result.type || r.n != k.result.n || r.d != k.result.d || std::memcmp(r.v, k.result.v, sizeof r.v) != 0
      || !same_text(k.kind, r, k.result))
    sim::violation("differs between stages", "%s: %s of %s/%s gives %s/%s, %llx at stage \"%s\", and gave %s/%s, %llx at stage \"%s\"",
                   k.c->name, kind_name(k.kind), model::text(k.c->load(k.a).n).c_str(), model::text(k.c->load(k.a).d).c_str(),
                   model::text(r.n).c_str(), model::text(r.d).c_str(),
                   static_cast<unsigned long long>(k.kind == hash_ || k.kind == mix_hash ? r.v[1] : r.v[0]), stage,
                   model::text(k.result.n).c_str(), model::text(k.result.d).c_str(),
                   static_cast<unsigned long long>(k.kind == hash_ || k.kind == mix_hash ? k.result.v[1] : k.result.v[0]),
                   k.stage);
}

void evaluate_one()
{
  Record k;
  k.c = &calcs[below(24)];
  k.kind = add_ff;
  for (int tries = 0; tries < 8; ++tries)
  {
    int const kind = kinds[below(uint64_t(nkinds))];
    if (k.c->supports(kind)) { k.kind = kind; break; }
  }
  unsigned const n = bits < k.c->rep_bits ? bits : k.c->rep_bits - 1;
  model::R const a = gen_parts(*k.c, n, true), b = below(3) ? gen_parts(*k.c, n, true) : gen_related(*k.c, a, n);
  k.c->store(k.a, a.n, a.d);
  k.c->store(k.b, b.n, b.d);
  gen_aux(*k.c, k.kind, n, k.args, k.text);
  Slot x = k.a, y = k.b;
  k.args.a = &x;
  k.args.b = &y;
  if (k.args.text) k.args.text = k.text.data;
  Expect const e = expect(*k.c, k.kind, k.args);
  if (!e.ok) return;
  k.c->exec(k.kind, k.args, k.result);
  ++evaluations;
  sim::nontrivial();
  sim::ev("eval", stage, kind_name(k.kind), k.c->name, int64_t(a.n), int64_t(a.d), int64_t(b.n), int64_t(b.d), k.args.i,
          k.args.mode, int64_t(k.result.n), int64_t(k.result.d), k.result.v[0]);
  Args judged = k.args;
  judged.b = &k.b;
  char where[48];
  std::snprintf(where, sizeof where, "at stage %s", stage);
  judge(*k.c, k.kind, judged, e, a, k.result, where);
  k.used = true;
  k.stage = stage;
  if (below(2)) records[below(8)] = k;
}

// What the library gave back to the heap belongs to the rest of the program.
void check_freed()
{
  sim::judge();
  if (!sim::heap::intact())
    sim::violation("freed memory written", "at stage %s an evaluation has changed memory that was freed before", stage);
}

void work(unsigned mean)
{
  do
  {
    if (below(3)) evaluate_one();
    else again();
  } while (sim::more(mean));
  check_freed();
}

void handler(void*)
{
  sim::count("fault:evaluations in an exit handler or a destructor");
  work(2);
}

void maybe_register()
{
  if (sim::chance(1, 3)) at_exit.push({handler, nullptr, true});
  if (sim::chance(1, 4)) at_thread_exit.push({handler, nullptr, true});
}

// Last registered, first run; handlers may register more.
void run_handlers(Handlers& h, char const* what)
{
  while (h.n > 0)
  {
    Handler const x = h.list[--h.n];
    sim::ev(what, x.ours, h.n);
    history = sim::mix(history, x.ours ? 3 : 4);
    if (x.f != nullptr && !x.arg && !x.ours) reinterpret_cast<void (*)()>(x.f)();
    else x.f(x.arg);
    if (!x.ours)
    {
      sim::count("fault:static object destroyed");
      if (below(2)) work(2);
    }
  }
}

void run()
{
  sim::heap::poison = true;
  int n = 0;
#define MAKE(p) calc_make_##p##_i64(&calcs[n++]); calc_make_##p##_i32(&calcs[n++]); calc_make_##p##_u32(&calcs[n++]);
  EACH(MAKE)
  nkinds = 1 + int(below(6));
  for (int i = 0; i < nkinds; ++i) kinds[i] = int(below(kind_count));
  if (below(3) == 0) kinds[0] = hash_;
  bits = unsigned(2 + below(below(3) ? 14 : 60));
  unsigned const mean = sim::chance(1, 20) ? 60 : 6;

  // static initialisation, in the order the linker chose
  stage = "initialisation";
  int todo[256], left = 0;
  if (__start_lib_init != nullptr)
    for (auto f = __start_lib_init; f != __stop_lib_init && left < 256; ++f) todo[left++] = int(f - __start_lib_init);
  sim::ev("program", left, nkinds, bits);
  do
  {
    switch (below(3))
    {
      case 0:
        if (left > 0)
        {
          int const k = int(below(uint64_t(left)));
          int const which = todo[k];
          todo[k] = todo[--left];
          sim::ev("initialiser", which);
          sim::count("fault:initialiser of the library run late");
          history = sim::mix(history, uint64_t(which) + 10);
          __start_lib_init[which]();
          break;
        }
        [[fallthrough]];
      case 1:
        sim::count("fault:evaluations before or between initialisers");
        work(3);
        break;
      default: maybe_register();
    }
    history = sim::mix(history, 1);
  } while (sim::more(mean));
  while (left > 0)
  {
    sim::ev("initialiser", todo[left - 1]);
    __start_lib_init[todo[--left]]();
  }

  stage = "main";
  do
  {
    work(mean);
    maybe_register();
    history = sim::mix(history, 2);
    if (sim::chance(1, 6))
    {
      // a thread ends, another goes on in its place
      stage = "thread exit";
      run_handlers(at_thread_exit, "thread exit");
      work(2);
      stage = "main";
    }
  } while (sim::more(2));
  stage = "thread exit";
  run_handlers(at_thread_exit, "thread exit");
  stage = "exit";
  run_handlers(at_exit, "exit");
  stage = "after exit";
  sim::count("fault:evaluations after the last destructor");
  work(mean);
  check_freed();
  sim::heap::poison = false;
  sim::schedule(history);
  sim::state(sim::mix(history, evaluations > 32 ? 32 : evaluations));
}

} // namespace

namespace sim {
World const world = {
  "C26", run,
  "all of include/ieme (8 policies x int64/int32/uint32): arithmetic, comparison, queries, reduction, rounding, powers, "
  "hash, float/text conversion, stream operators, mixed numbers, chrono; libstdc++",
  "the order of static initialisers of objects that contain the library, the lists of exit and thread-exit handlers, "
  "the heap (what is freed is overwritten)",
  "a run is a program from its first static initialiser to its last destructor with evaluations at every stage; "
  "non-trivial when an evaluation was made"};
}
