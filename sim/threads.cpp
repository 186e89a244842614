// The scheduler. This file and sim.cpp are compiled without instrumentation;
// the worlds and the library headers inside them are compiled with
// -fsanitize=thread but linked to the callbacks below instead of TSan.
#include "threads.hpp"
#include "internal.hpp"
#include "sim.hpp"

#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace sim {
namespace {

constexpr int max_threads = 6;
constexpr size_t stack_size = size_t(1) << 20;
constexpr uint64_t never = ~uint64_t(0);
constexpr uint64_t fairness = 30000;

struct Clock {
  uint32_t t[max_threads] = {};
  void join(Clock const& o)
  {
    for (int i = 0; i < max_threads; ++i)
      if (o.t[i] > t[i]) t[i] = o.t[i];
  }
};

struct Thread {
  int go = 0;
  bool done = false;
  bool (*cond)(void*) = nullptr;
  void* cond_arg = nullptr;
  char const* cond_what = "";
  int depth = 0;          // library call nesting
  uint64_t gap = never;   // accesses to the next preemption
  uint64_t irq = never;   // accesses to the next interrupt
  int level = 0;          // interrupt handlers running
  int masked = 0;         // one-time initialisations running
  uint64_t in_call = 0;   // accesses since lib_enter
  uint64_t since_switch = 0;
  Clock vc;
  std::function<void()> const* body = nullptr;
};

Thread threads[max_threads];
int nthreads = 0;
int cur = -1;
int main_go = 0;
int ready_go = 0;
ThreadOptions opt;
uint64_t nswitches = 0;
uint64_t sched_hash = 0;
char* stacks = nullptr;
int lib_depth_single = 0;

void futex_wait(int* a)
{
  while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0)
    ::syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(a, 0, __ATOMIC_RELAXED);
}
void futex_wake(int* a)
{
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  ::syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

bool runnable(int i)
{
  Thread& t = threads[i];
  return !t.done && (!t.cond || t.cond(t.cond_arg));
}

void draw_gap(Thread& t)
{
  if (!opt.preempt_in_lib)
  {
    t.gap = never;
    return;
  }
  uint64_t const g = below(2 * opt.mean_gap + 1);
  t.gap = g == 0 ? never : g;
}

void draw_irq(Thread& t)
{
  if (!opt.interrupt || t.level >= opt.interrupt_levels || opt.interrupts == 0)
  {
    t.irq = never;
    return;
  }
  uint64_t const g = below(2 * opt.interrupt_gap + 1);
  t.irq = g == 0 ? never : g;
}

// The handler runs on the stack of the thread it interrupts.
void deliver()
{
  if (opt.interrupts == 0) return;
  --opt.interrupts;
  int const self = cur;
  Thread& t = threads[self];
  int const depth = t.depth;
  uint64_t const in_call = t.in_call, gap = t.gap;
  t.depth = 0;
  ++t.level;
  count("fault:interrupt inside a library call");
  nontrivial();
  sched_hash = mix(sched_hash, static_cast<uint64_t>(self) * 8 + 0x1000);
  sched_hash = mix(sched_hash, in_call);
  ev("interrupt", self, t.level, in_call);
  opt.interrupt(self, t.level);
  ev("return", self, t.level);
  --t.level;
  t.depth = depth;
  t.in_call = in_call;
  t.gap = gap;
  draw_irq(t);
}

// The running thread gives the processor away. voluntary: it could go on.
void reschedule(bool voluntary)
{
  int const self = cur;
  int list[max_threads], n = 0;
  for (int i = 0; i < nthreads; ++i)
    if (i != self && runnable(i)) list[n++] = i;
  if (n == 0)
  {
    if (voluntary || runnable(self)) return;
    bool all = true;
    for (int i = 0; i < nthreads; ++i) all &= threads[i].done;
    if (all)
    {
      cur = -1;
      futex_wake(&main_go);
      return;
    }
    violation("deadlock", "no thread can proceed (thread %d waits for: %s)", self,
              threads[self].done ? "-" : threads[self].cond_what);
  }
  int const next = list[below(static_cast<uint64_t>(n))];
  ++nswitches;
  sched_hash = mix(sched_hash, static_cast<uint64_t>(self) * 8 + static_cast<uint64_t>(next));
  sched_hash = mix(sched_hash, threads[self].in_call);
  ev("switch", self, next, threads[self].in_call);
  threads[self].since_switch = 0;
  threads[next].since_switch = 0;
  bool const finished = threads[self].done;
  cur = next;
  futex_wake(&threads[next].go);
  if (!finished) futex_wait(&threads[self].go);
}

void preempt_check()
{
  Thread& t = threads[cur];
  ++t.in_call;
  if (++t.since_switch > fairness)
  {
    t.since_switch = 0;
    count("probe:fairness switch");
    reschedule(true);
    return;
  }
  if (t.depth == 0) return;
  if (t.irq != never && t.masked == 0 && --t.irq == 0) deliver();
  if (t.gap != never && --t.gap == 0)
  {
    count("fault:preemption inside a library call");
    nontrivial();
    reschedule(true);
    draw_gap(threads[cur]);
  }
}

// ---------------------------------------------------------------- races

struct Cell {
  uintptr_t key;
  uint32_t wclk;
  uint8_t wtid, wmask;
  uint32_t rclk[max_threads];
  uint8_t rmask[max_threads];
};
constexpr size_t ncells = size_t(1) << 15;
Cell* cells = nullptr;
size_t used_cells = 0;

Cell* cell(uintptr_t key)
{
  size_t i = (key * 0x9e3779b97f4a7c15ull) >> 49;
  for (size_t k = 0; k < 64; ++k, i = (i + 1) % ncells)
  {
    if (cells[i].key == key) return &cells[i];
    if (cells[i].key == 0)
    {
      if (used_cells > ncells * 3 / 4) return nullptr;
      ++used_cells;
      cells[i].key = key;
      return &cells[i];
    }
  }
  return nullptr;
}

void race(void* pc, char const* what, int other)
{
  Dl_info info {};
  ::dladdr(pc, &info);
  violation("race",
            "data race: %s by thread %d is not ordered with one by thread %d (at %s+0x%lx)",
            what, cur, other, info.dli_sname ? info.dli_sname : "code",
            static_cast<unsigned long>(reinterpret_cast<uintptr_t>(pc)
                                       - reinterpret_cast<uintptr_t>(info.dli_fbase)));
}

void check_granule(uintptr_t key, uint8_t mask, bool write, void* pc)
{
  Cell* c = cell(key);
  if (!c) return;
  Thread& t = threads[cur];
  if (c->wclk && c->wtid != cur && (c->wmask & mask) && c->wclk > t.vc.t[c->wtid])
    race(pc, write ? "a write (after a write)" : "a read (after a write)", c->wtid);
  if (write)
  {
    for (int i = 0; i < nthreads; ++i)
      if (i != cur && c->rclk[i] && (c->rmask[i] & mask) && c->rclk[i] > t.vc.t[i])
        race(pc, "a write (after a read)", i);
    c->wmask = (c->wtid == cur && c->wclk == t.vc.t[cur]) ? c->wmask | mask : mask;
    c->wclk = t.vc.t[cur];
    c->wtid = static_cast<uint8_t>(cur);
  }
  else
  {
    c->rmask[cur] = (c->rclk[cur] == t.vc.t[cur]) ? c->rmask[cur] | mask : mask;
    c->rclk[cur] = t.vc.t[cur];
  }
}

bool in_stacks(uintptr_t a)
{
  auto const s = reinterpret_cast<uintptr_t>(stacks);
  return a >= s && a < s + stack_size * max_threads;
}

inline void access(void* p, size_t n, bool write, void* pc)
{
  check_steps();
  if (cur < 0) return;
  if (threads[cur].depth > 0 && opt.detect_races)
  {
    auto a = reinterpret_cast<uintptr_t>(p);
    if (!in_stacks(a))
      for (uintptr_t const end = a + n; a < end;)
      {
        uintptr_t const g = a >> 3;
        unsigned const from = a & 7;
        unsigned const len = static_cast<unsigned>(end - a < 8 - from ? end - a : 8 - from);
        check_granule(g, static_cast<uint8_t>(((1u << len) - 1) << from), write, pc);
        a += len;
      }
  }
  preempt_check();
}

// ---------------------------------------------------------------- sync objects

struct Sync {
  uintptr_t key = 0;
  Clock vc;
  int owner = -1;      // exclusive owner
  int count = 0;       // recursion
  int readers = 0;
  int state = 0;       // once: 0 fresh, 1 running, 2 done
};
constexpr int nsync = 1024;
Sync* syncs = nullptr;
Clock fence_clock;

Sync& sync_of(void const* p)
{
  auto const key = reinterpret_cast<uintptr_t>(p);
  size_t i = (key * 0x9e3779b97f4a7c15ull) >> 54;
  for (int k = 0; k < nsync; ++k, i = (i + 1) % nsync)
  {
    if (syncs[i].key == key) return syncs[i];
    if (syncs[i].key == 0)
    {
      syncs[i].key = key;
      return syncs[i];
    }
  }
  harness_error("too many synchronisation objects");
}

void acquire(Sync& s) { threads[cur].vc.join(s.vc); }
void release(Sync& s, bool join)
{
  Thread& t = threads[cur];
  if (join) s.vc.join(t.vc);
  else s.vc = t.vc;
  ++t.vc.t[cur];
}

bool simulating() { return internal::in_run && cur >= 0; }

void atomic_before(void const* p, int order, bool load, bool store)
{
  check_steps();
  if (!simulating()) return;
  preempt_check();
  (void)p; (void)order; (void)load; (void)store;
}
void atomic_sync(void const* p, int order, bool load, bool store)
{
  if (!simulating()) return;
  Sync& s = sync_of(p);
  bool const acq = order == __ATOMIC_ACQUIRE || order == __ATOMIC_CONSUME
                   || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST;
  bool const rel = order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL
                   || order == __ATOMIC_SEQ_CST;
  if (load && acq) acquire(s);
  if (store && rel) release(s, load);
}

void* thread_main(void* arg)
{
  auto const id = static_cast<int>(reinterpret_cast<intptr_t>(arg));
  futex_wake(&ready_go);
  futex_wait(&threads[id].go);
  (*threads[id].body)();
  threads[id].done = true;
  ++threads[id].vc.t[id];
  reschedule(false);
  for (;;) ::pause(); // never runs thread-exit code next to other threads
}

struct Init {
  Init()
  {
    auto const map = [](size_t n) {
      return ::mmap(nullptr, n, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    };
    stacks = static_cast<char*>(map(stack_size * max_threads));
    cells = static_cast<Cell*>(map(sizeof(Cell) * ncells));
    syncs = static_cast<Sync*>(map(sizeof(Sync) * nsync));
    for (int i = 0; i < nsync; ++i) syncs[i].owner = -1;
  }
} init;

} // namespace

void lib_enter()
{
  if (cur < 0)
  {
    ++lib_depth_single;
    return;
  }
  Thread& t = threads[cur];
  if (t.depth++ == 0)
  {
    t.in_call = 0;
    draw_gap(t);
    draw_irq(t);
  }
}

void lib_leave()
{
  if (cur < 0)
  {
    --lib_depth_single;
    return;
  }
  Thread& t = threads[cur];
  if (--t.depth == 0)
  {
    t.in_call = 0;
    if (chance(1, 4)) reschedule(true);
  }
}

int current_thread() { return cur; }
uint64_t switches() { return nswitches; }
int interrupt_level() { return cur < 0 ? 0 : threads[cur].level; }
void resume_at_level(int level)
{
  Thread& t = threads[cur];
  t.level = level;
  t.depth = 0;
  t.gap = t.irq = never;
}
void kill_thread()
{
  count("fault:thread killed inside a library call");
  ev("killed", cur);
  threads[cur].done = true;
  reschedule(false);
  for (;;) ::pause();
}

void yield_point()
{
  if (cur < 0) return;
  if (chance(1, 2)) reschedule(true);
}

void block_until(bool (*cond)(void*), void* arg, char const* what)
{
  if (cur < 0)
  {
    if (!cond(arg)) violation("deadlock", "blocked for ever: %s", what);
    return;
  }
  while (!cond(arg))
  {
    Thread& t = threads[cur];
    t.cond = cond;
    t.cond_arg = arg;
    t.cond_what = what;
    reschedule(false);
    t.cond = nullptr;
  }
}

void run_threads(std::function<void()> const* bodies, int n, ThreadOptions const& options)
{
  if (n > max_threads) harness_error("too many threads");
  opt = options;
  nthreads = n;
  for (int i = 0; i < n; ++i)
  {
    threads[i] = Thread {};
    threads[i].body = &bodies[i];
    threads[i].vc.t[i] = 1;
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstack(&attr, stacks + stack_size * static_cast<size_t>(i), stack_size);
    pthread_t id;
    if (pthread_create(&id, &attr, thread_main, reinterpret_cast<void*>(intptr_t(i))) != 0)
      harness_error("pthread_create");
    futex_wait(&ready_go);
  }
  cur = static_cast<int>(below(static_cast<uint64_t>(n)));
  futex_wake(&threads[cur].go);
  futex_wait(&main_go);
  cur = -1;
  nthreads = 0;
  schedule(sched_hash);
}

} // namespace sim

// ==================================================================== callbacks

using namespace sim;

#define PC __builtin_return_address(0)
#define ACCESS(n)                                                                    \
  void __tsan_read##n(void* p) { access(p, n, false, PC); }                          \
  void __tsan_write##n(void* p) { access(p, n, true, PC); }                          \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); }                 \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }                 \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); }                \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }                \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); }       \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); }

#define ATOMIC(bits, T)                                                              \
  T __tsan_atomic##bits##_load(T const volatile* p, int o)                           \
  {                                                                                  \
    atomic_before((void const*)p, o, true, false);                                   \
    T const v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                \
    atomic_sync((void const*)p, o, true, false);                                     \
    return v;                                                                        \
  }                                                                                  \
  void __tsan_atomic##bits##_store(T volatile* p, T v, int o)                        \
  {                                                                                  \
    atomic_before((void const*)p, o, false, true);                                   \
    atomic_sync((void const*)p, o, false, true);                                     \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                        \
  }                                                                                  \
  ATOMIC_RMW(bits, T, exchange, __atomic_exchange_n)                                 \
  ATOMIC_RMW(bits, T, fetch_add, __atomic_fetch_add)                                 \
  ATOMIC_RMW(bits, T, fetch_sub, __atomic_fetch_sub)                                 \
  ATOMIC_RMW(bits, T, fetch_and, __atomic_fetch_and)                                 \
  ATOMIC_RMW(bits, T, fetch_or, __atomic_fetch_or)                                   \
  ATOMIC_RMW(bits, T, fetch_xor, __atomic_fetch_xor)                                 \
  ATOMIC_RMW(bits, T, fetch_nand, __atomic_fetch_nand)                               \
  int __tsan_atomic##bits##_compare_exchange_strong(T volatile* p, T* e, T d, int o, \
                                                    int)                             \
  {                                                                                  \
    atomic_before((void const*)p, o, true, true);                                    \
    bool const r = __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST,     \
                                               __ATOMIC_SEQ_CST);                    \
    atomic_sync((void const*)p, o, true, r);                                         \
    return r;                                                                        \
  }                                                                                  \
  int __tsan_atomic##bits##_compare_exchange_weak(T volatile* p, T* e, T d, int o,   \
                                                  int f)                             \
  {                                                                                  \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, d, o, f);             \
  }

#define ATOMIC_RMW(bits, T, name, builtin)                                           \
  T __tsan_atomic##bits##_##name(T volatile* p, T v, int o)                          \
  {                                                                                  \
    atomic_before((void const*)p, o, true, true);                                    \
    T const r = builtin(p, v, __ATOMIC_SEQ_CST);                                     \
    atomic_sync((void const*)p, o, true, true);                                      \
    return r;                                                                        \
  }

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*)
{
  check_steps();
  if (cur >= 0) preempt_check();
}
void __tsan_func_exit() {}
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int)
{
  if (!simulating()) return;
  Thread& t = threads[cur];
  t.vc.join(fence_clock);
  fence_clock.join(t.vc);
  ++t.vc.t[cur];
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- blocking primitives

#define REAL(name)                                                                   \
  static auto const real = reinterpret_cast<decltype(&name)>(::dlsym(RTLD_NEXT, #name))

static bool free_for_me(void* p)
{
  auto& s = *static_cast<Sync*>(p);
  return (s.owner == -1 || s.owner == cur) && s.readers == 0;
}
static bool free_to_read(void* p)
{
  auto& s = *static_cast<Sync*>(p);
  return s.owner == -1;
}
static bool owner_gone(void* p) { return static_cast<Sync*>(p)->owner == -1; }

static void lock_exclusive(void* m, bool recursive)
{
  preempt_check();
  Sync& s = sync_of(m);
  if (s.owner == cur && recursive)
  {
    ++s.count;
    return;
  }
  block_until(owner_gone, &s, "mutex");
  block_until(free_for_me, &s, "mutex");
  s.owner = cur;
  s.count = 1;
  acquire(s);
}
static void unlock(void* m)
{
  Sync& s = sync_of(m);
  if (s.owner == cur)
  {
    if (--s.count > 0) return;
    release(s, true);
    s.owner = -1;
  }
  else if (s.readers > 0)
  {
    release(s, true);
    --s.readers;
  }
  preempt_check();
}
static bool is_recursive(pthread_mutex_t* m)
{
  return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}

int pthread_mutex_lock(pthread_mutex_t* m) noexcept(false)
{
  if (simulating())
  {
    lock_exclusive(m, is_recursive(m));
    return 0;
  }
  if (internal::in_run) return 0;
  REAL(pthread_mutex_lock);
  return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept(false)
{
  if (simulating())
  {
    preempt_check();
    Sync& s = sync_of(m);
    if (!free_for_me(&s) || (s.owner == cur && !is_recursive(m))) return 16; // EBUSY
    s.owner = cur;
    ++s.count;
    acquire(s);
    return 0;
  }
  if (internal::in_run) return 0;
  REAL(pthread_mutex_trylock);
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept(false)
{
  if (simulating())
  {
    unlock(m);
    return 0;
  }
  if (internal::in_run) return 0;
  REAL(pthread_mutex_unlock);
  return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept(false)
{
  if (simulating()) lock_exclusive(m, false);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept(false)
{
  if (simulating())
  {
    Sync& s = sync_of(m);
    if (s.owner != -1 || s.readers != 0) return 16;
    lock_exclusive(m, false);
  }
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept(false)
{
  if (simulating())
  {
    preempt_check();
    Sync& s = sync_of(m);
    block_until(free_to_read, &s, "rwlock");
    ++s.readers;
    acquire(s);
  }
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept(false)
{
  if (simulating())
  {
    Sync& s = sync_of(m);
    if (s.owner != -1) return 16;
    ++s.readers;
    acquire(s);
  }
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept(false)
{
  if (simulating()) unlock(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) noexcept(false)
{
  if (!simulating()) return 0;
  unlock(m); // every wake-up is spurious: callers must re-check
  reschedule(true);
  lock_exclusive(m, false);
  (void)c;
  return 0;
}
int pthread_cond_signal(pthread_cond_t*) noexcept { return 0; }
int pthread_cond_broadcast(pthread_cond_t*) noexcept { return 0; }
int sched_yield() noexcept
{
  if (simulating()) reschedule(true);
  return 0;
}
int nanosleep(timespec const*, timespec*)
{
  if (simulating()) reschedule(true);
  return 0;
}
int clock_nanosleep(clockid_t, int, timespec const*, timespec*)
{
  if (simulating()) reschedule(true);
  return 0;
}
int usleep(useconds_t)
{
  if (simulating()) reschedule(true);
  return 0;
}

static bool once_settled(void* p) { return static_cast<Sync*>(p)->state != 1; }

int pthread_once(pthread_once_t* o, void (*f)()) noexcept(false)
{
  if (!simulating())
  {
    // single-threaded here, so a plain flag will do; 2 is glibc's "done"
    if (*o == 2) return 0;
    f();
    *o = 2;
    return 0;
  }
  Sync& s = sync_of(o);
  preempt_check();
  for (;;)
  {
    block_until(once_settled, &s, "once");
    if (*o == 2)
    {
      acquire(s);
      return 0;
    }
    if (s.state != 1)
    {
      s.state = 1;
      int const self = cur;
      struct Mask {
        int id;
        ~Mask() { --threads[id].masked; }
      } mask {self};
      ++threads[self].masked;
      try { f(); }
      catch (...)
      {
        s.state = 0;
        throw;
      }
      *o = 2;
      release(s, true);
      s.state = 2;
      return 0;
    }
  }
}

int __cxa_guard_acquire(long long* g)
{
  auto* const done = reinterpret_cast<char*>(g);
  if (!simulating()) return !*done;
  Sync& s = sync_of(g);
  preempt_check();
  for (;;)
  {
    block_until(once_settled, &s, "static initialisation");
    if (*done)
    {
      acquire(s);
      return 0;
    }
    if (s.state != 1)
    {
      s.state = 1;
      ++threads[cur].masked;
      return 1;
    }
  }
}
void __cxa_guard_release(long long* g) noexcept
{
  *reinterpret_cast<char*>(g) = 1;
  if (!simulating()) return;
  Sync& s = sync_of(g);
  release(s, true);
  s.state = 2;
  --threads[cur].masked;
}
void __cxa_guard_abort(long long* g) noexcept
{
  if (!simulating()) return;
  --threads[cur].masked;
  sync_of(g).state = 0;
}
}
