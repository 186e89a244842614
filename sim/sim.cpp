#include "sim.hpp"
#include "internal.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <new>
#include <regex>
#include <sched.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace sim {

// ================================================================ shared state

enum class Verdict : int { none, ok, violation, discard, harness };

struct Counter {
  char const* name;
  uint64_t n;
};

constexpr size_t max_choices = size_t(1) << 21;
constexpr size_t max_counters = 512;
constexpr size_t max_states = 4096;

struct Shm {
  Verdict verdict;
  char cls[128];
  char msg[2048];
  uint64_t hash, steps, judged, sim_ns, nchoices, nevents;
  bool nontrivial;
  uint64_t nstates, nschedules;
  Counter counters[max_counters];
  uint64_t states[max_states];
  uint64_t schedules[max_states];
  uint64_t choices[max_choices];
};

static Shm* shm;

// ================================================================ the run side

bool verbose = false;
uint64_t judged = 0;
uint64_t steps = 0;
static uint64_t step_limit = 400'000'000;
static int log_fd = -1;

namespace internal {
bool in_run = false;
}
using internal::in_run;

static uint64_t prng[4];
static uint64_t const* replay_trace = nullptr;
static uint64_t replay_len = 0;
static bool replaying = false;

static uint64_t splitmix(uint64_t& x)
{
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

static uint64_t next_random()
{
  auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  uint64_t const result = rotl(prng[1] * 5, 7) * 9;
  uint64_t const t = prng[1] << 17;
  prng[2] ^= prng[0];
  prng[3] ^= prng[1];
  prng[1] ^= prng[2];
  prng[0] ^= prng[3];
  prng[2] ^= t;
  prng[3] = rotl(prng[3], 45);
  return result;
}

uint64_t below(uint64_t n)
{
  if (!in_run)
    harness_error("decision outside a run");
  uint64_t v;
  if (n <= 1) return 0;
  if (replaying)
  {
    v = shm->nchoices < replay_len ? replay_trace[shm->nchoices] : 0;
    if (v >= n) v %= n;
  }
  else
    v = static_cast<uint64_t>(
      (static_cast<unsigned __int128>(next_random()) * n) >> 64);
  if (shm->nchoices >= max_choices)
    harness_error("too many decisions in one run");
  shm->choices[shm->nchoices++] = v;
  return v;
}

static char line[8192];
static size_t line_len;
static uint64_t ev_hash;

static void line_add(char const* s, size_t n)
{
  if (line_len + n >= sizeof line - 2) n = sizeof line - 2 - line_len;
  std::memcpy(line + line_len, s, n);
  line_len += n;
}

void ev_begin(char const* tag)
{
  ev_hash = shm->hash;
  for (char const* p = tag; *p; ++p) ev_hash = (ev_hash ^ uint64_t(*p)) * 0x100000001b3ull;
  if (verbose)
  {
    line_len = 0;
    line_add(tag, std::strlen(tag));
  }
}
void ev_int(int64_t v)
{
  ev_hash = mix(ev_hash, static_cast<uint64_t>(v));
  if (verbose)
  {
    char b[32];
    line_add(b, static_cast<size_t>(std::snprintf(b, sizeof b, " %lld", static_cast<long long>(v))));
  }
}
void ev_str(char const* s, size_t n)
{
  for (size_t i = 0; i < n; ++i) ev_hash = (ev_hash ^ static_cast<unsigned char>(s[i])) * 0x100000001b3ull;
  ev_hash = mix(ev_hash, n);
  if (verbose)
  {
    line_add(" ", 1);
    for (size_t i = 0; i < n; ++i)
    {
      unsigned char c = static_cast<unsigned char>(s[i]);
      if (c >= 32 && c < 127 && c != '\\')
        line_add(s + i, 1);
      else
      {
        char b[8];
        line_add(b, static_cast<size_t>(std::snprintf(b, sizeof b, "\\x%02x", c)));
      }
    }
  }
}
void ev_end()
{
  shm->hash = ev_hash;
  ++shm->nevents;
  if (verbose && log_fd >= 0)
  {
    line[line_len++] = '\n';
    (void)!::write(log_fd, line, line_len);
  }
}

static void sync_shm()
{
  shm->steps = steps;
  shm->judged = judged;
}

[[noreturn]] static void finish(Verdict v)
{
  heap::armed = false;
  sync_shm();
  shm->verdict = v;
  ::_exit(0);
}

void violation(char const* cls, char const* fmt, ...)
{
  heap::armed = false;
  if (!in_run) harness_error("violation outside a run: %s", cls);
  std::snprintf(shm->cls, sizeof shm->cls, "%s", cls);
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
  va_end(ap);
  finish(Verdict::violation);
}

void discard(char const* why)
{
  std::snprintf(shm->cls, sizeof shm->cls, "%s", why);
  finish(Verdict::discard);
}

void harness_error(char const* fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  if (in_run && shm)
  {
    std::vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
    va_end(ap);
    finish(Verdict::harness);
  }
  std::vfprintf(stderr, fmt, ap);
  std::fputc('\n', stderr);
  va_end(ap);
  ::_exit(2);
}

void count(char const* literal, uint64_t n)
{
  size_t i = (reinterpret_cast<uintptr_t>(literal) * 0x9e3779b97f4a7c15ull) >> 55;
  for (size_t k = 0; k < max_counters; ++k, i = (i + 1) % max_counters)
  {
    auto& c = shm->counters[i];
    if (c.name == nullptr) c.name = literal;
    if (c.name == literal)
    {
      c.n += n;
      return;
    }
  }
  harness_error("counter table full");
}

void state(uint64_t h)
{
  if (shm->nstates < max_states) shm->states[shm->nstates++] = h;
}
void schedule(uint64_t h)
{
  if (shm->nschedules < max_states) shm->schedules[shm->nschedules++] = h;
}
void elapse(uint64_t ns) { shm->sim_ns += ns; }
void nontrivial() { shm->nontrivial = true; }
void set_step_limit(uint64_t n) { step_limit = steps + n; }
void check_steps()
{
  if (++steps > step_limit && in_run)
    violation("hang", "no progress: the run exceeded its budget of work inside the code under test");
}

// ================================================================ heap

namespace heap {
bool armed = false;
bool poison = false;
uint64_t requests = 0, refused = 0;
int mode = 0;
uint64_t nth = 0;
unsigned rnd_num = 1, rnd_den = 2;
void arm(int m, uint64_t n, unsigned num, unsigned den)
{
  mode = m;
  nth = n;
  rnd_num = num;
  rnd_den = den;
  requests = refused = 0;
  armed = true;
}
void disarm() { armed = false; }

static bool refuse()
{
  ++requests;
  bool no = false;
  switch (mode)
  {
    case 1: no = true; break;
    case 2: no = requests == nth; break;
    case 3: no = requests >= nth; break;
    case 4: no = chance(rnd_num, rnd_den); break;
    default: break;
  }
  if (no) ++refused;
  return no;
}
} // namespace heap

constexpr size_t arena_size = size_t(768) << 20;
static char* arena;
static size_t arena_used;

namespace internal {
void* arena_alloc(size_t size, size_t align)
{
  if (align < 16) align = 16;
  size_t at = (arena_used + 16 + align - 1) / align * align;
  if (at + size > arena_size) return nullptr;
  arena_used = at + size;
  reinterpret_cast<size_t*>(arena + at)[-1] = size;
  reinterpret_cast<size_t*>(arena + at)[-2] = 0;
  return arena + at;
}
} // namespace internal

// Nothing in the arena is used twice: what was freed and overwritten stays so,
// unless something still uses it.
static void* freed; // a list through the words before the blocks
static void poison_freed(void* p)
{
  auto const words = static_cast<size_t*>(p);
  if (words[-2] != 0) violation("freed twice", "memory is freed that was freed before");
  words[-2] = reinterpret_cast<size_t>(freed) | 1;
  freed = p;
  std::memset(p, 0xdd, words[-1]);
}

bool heap::intact()
{
  for (void* p = freed; p != nullptr;)
  {
    auto const words = static_cast<size_t*>(p);
    auto const bytes = static_cast<unsigned char*>(p);
    for (size_t i = 0; i < words[-1]; ++i)
      if (bytes[i] != 0xdd) return false;
    p = reinterpret_cast<void*>(words[-2] & ~size_t(1));
  }
  return true;
}

static bool in_arena(void const* p)
{
  return p >= arena && p < arena + arena_size && arena;
}

} // namespace sim

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);

void* malloc(size_t n)
{
  using namespace sim;
  if (!in_run) return __libc_malloc(n);
  if (heap::armed && heap::refuse())
  {
    errno = ENOMEM;
    return nullptr;
  }
  return internal::arena_alloc(n, 16);
}
void free(void* p)
{
  if (!p) return;
  if (!sim::in_arena(p)) __libc_free(p);
  else if (sim::heap::poison) sim::poison_freed(p);
}
void* calloc(size_t a, size_t b)
{
  using namespace sim;
  if (!in_run) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void* p = malloc(n);
  if (p) std::memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n)
{
  using namespace sim;
  if (!in_run) return __libc_realloc(p, n);
  if (!p) return malloc(n);
  if (!in_arena(p)) return __libc_realloc(p, n);
  size_t old = static_cast<size_t*>(p)[-1];
  void* q = malloc(n);
  if (q) std::memcpy(q, p, old < n ? old : n);
  return q;
}
void* memalign(size_t a, size_t n)
{
  using namespace sim;
  if (!in_run) return __libc_memalign(a, n);
  if (heap::armed && heap::refuse())
  {
    errno = ENOMEM;
    return nullptr;
  }
  return internal::arena_alloc(n, a);
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** out, size_t a, size_t n)
{
  void* p = memalign(a, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
}

namespace sim {

// ================================================================ the supervisor side

struct Outcome {
  Verdict verdict = Verdict::none;
  std::string cls, msg;
  uint64_t hash = 0, nchoices = 0;
};

static double now_s()
{
  return std::chrono::duration<double>(
           std::chrono::steady_clock::now().time_since_epoch())
    .count();
}

static void on_terminate()
{
  char const* what = "std::terminate called";
  if (auto e = std::current_exception())
  {
    static char buffer[256];
    try { std::rethrow_exception(e); }
    catch (std::exception const& x)
    {
      std::snprintf(buffer, sizeof buffer, "std::terminate called after throwing: %s", x.what());
      what = buffer;
    }
    catch (...) { what = "std::terminate called after throwing"; }
  }
  heap::armed = false;
  violation("terminate", "%s", what);
}

static void reset_shm()
{
  std::memset(static_cast<void*>(shm), 0, offsetof(Shm, states));
  shm->hash = 0xcbf29ce484222325ull;
}

// Executes one run in a forked process.
static Outcome execute(uint64_t seed, std::vector<uint64_t> const* trace,
                       int verbose_fd)
{
  reset_shm();
  std::fflush(stdout);
  pid_t const pid = ::fork();
  if (pid < 0) harness_error("fork: %s", std::strerror(errno));
  if (pid == 0)
  {
    ::prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit const no_core = {0, 0};
    ::setrlimit(RLIMIT_CORE, &no_core);
    struct itimerval const cpu = {{0, 0}, {20, 0}};
    ::setitimer(ITIMER_PROF, &cpu, nullptr);
    ::alarm(120);
    std::set_terminate(on_terminate);
    verbose = verbose_fd >= 0;
    log_fd = verbose_fd;
    for (auto& p : prng) p = splitmix(seed);
    replaying = trace != nullptr;
    if (trace)
    {
      replay_trace = trace->data();
      replay_len = trace->size();
    }
    steps = 0;
    judged = 0;
    in_run = true;
    world.run();
    finish(Verdict::ok);
  }
  int status = 0;
  while (::waitpid(pid, &status, 0) < 0)
    if (errno != EINTR) harness_error("waitpid: %s", std::strerror(errno));
  Outcome o;
  o.hash = shm->hash;
  o.nchoices = shm->nchoices;
  if (WIFSIGNALED(status))
  {
    int const sig = WTERMSIG(status);
    o.verdict = Verdict::violation;
    switch (sig)
    {
      case SIGPROF:
        o.cls = "hang";
        o.msg = "the run used 20 s of processor time without finishing";
        break;
      case SIGALRM:
        o.cls = "stuck";
        o.msg = "the run blocked for 120 s";
        break;
      case SIGKILL:
        harness_error("a run was killed (out of memory?)");
      default:
        o.cls = std::string("crash:") + sigabbrev_np(sig);
        o.msg = std::string("the process died of ") + strsignal(sig);
    }
  }
  else if (shm->verdict == Verdict::none)
  {
    o.verdict = Verdict::violation;
    o.cls = "exit";
    o.msg = "the code under test ended the process";
  }
  else
  {
    o.verdict = shm->verdict;
    o.cls = shm->cls;
    o.msg = shm->msg;
  }
  if (o.verdict == Verdict::harness)
    harness_error("harness error in a run: %s", o.msg.c_str());
  return o;
}

static uint64_t run_seed(uint64_t seed, uint64_t index)
{
  uint64_t x = seed * 0x9e3779b97f4a7c15ull + index;
  uint64_t const a = splitmix(x);
  return a ^ (index * 0xd6e8feb86659fd93ull);
}

struct Known {
  std::string cls, pattern;
};

static bool matches_known(std::vector<Known> const& known, Outcome const& o)
{
  for (auto const& k : known)
    if ((k.cls.empty() || k.cls == o.cls)
        && std::regex_search(o.msg, std::regex(k.pattern)))
      return true;
  return false;
}

struct Control {
  volatile uint64_t best;  // lowest run index with a violation
  volatile bool error;
};

static std::string work_dir;

struct Totals {
  uint64_t runs = 0, nontrivial = 0, discarded = 0, judged = 0, steps = 0,
           sim_ns = 0, decisions = 0, events = 0, reruns = 0, known = 0;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> hashes, states, schedules;
};

constexpr size_t set_cap = 3'000'000;

static void worker(unsigned w, unsigned workers, uint64_t seed, uint64_t runs,
                   double deadline, Control* control,
                   std::vector<Known> const& known)
{
  {
    cpu_set_t all, mine;
    if (::sched_getaffinity(0, sizeof all, &all) == 0)
    {
      unsigned k = w % static_cast<unsigned>(CPU_COUNT(&all));
      CPU_ZERO(&mine);
      for (int c = 0; c < CPU_SETSIZE; ++c)
        if (CPU_ISSET(c, &all) && k-- == 0)
        {
          CPU_SET(c, &mine);
          break;
        }
      ::sched_setaffinity(0, sizeof mine, &mine);
    }
  }
  Totals t;
  auto const add = [](std::unordered_set<uint64_t>& s, uint64_t v) {
    if (s.size() < set_cap) s.insert(v);
  };
  for (uint64_t i = w; i < runs; i += workers)
  {
    if (control->error || i > control->best || now_s() > deadline) break;
    Outcome o = execute(run_seed(seed, i), nullptr, -1);
    ++t.runs;
    t.judged += shm->judged;
    t.steps += shm->steps;
    t.sim_ns += shm->sim_ns;
    t.decisions += shm->nchoices;
    t.events += shm->nevents;
    for (auto const& c : shm->counters)
      if (c.name) t.counters[c.name] += c.n;
    for (uint64_t k = 0; k < shm->nstates; ++k) add(t.states, shm->states[k]);
    for (uint64_t k = 0; k < shm->nschedules; ++k) add(t.schedules, shm->schedules[k]);
    if (o.verdict == Verdict::discard)
    {
      ++t.discarded;
      ++t.counters["discarded: " + o.cls];
    }
    else if (shm->nontrivial)
    {
      ++t.nontrivial;
      add(t.hashes, o.hash);
    }
    if (o.verdict == Verdict::violation)
    {
      if (matches_known(known, o))
      {
        ++t.known;
        std::ofstream f(work_dir + "/known." + std::to_string(w), std::ios::app);
        f << o.cls << '\t' << o.msg << '\n';
        continue;
      }
      std::ofstream f(work_dir + "/found." + std::to_string(i));
      f << o.cls << '\n' << o.hash << '\n' << shm->nchoices << '\n';
      for (uint64_t k = 0; k < shm->nchoices; ++k) f << shm->choices[k] << ' ';
      f << '\n' << o.msg << '\n';
      f.close();
      // benign race: a higher index may be stored by a slower worker
      if (i < control->best) control->best = i;
      break;
    }
    if ((i / workers) % 64 == 7)
    {
      ++t.reruns;
      uint64_t const h = o.hash;
      Outcome const again = execute(run_seed(seed, i), nullptr, -1);
      if (again.hash != h || again.verdict != o.verdict)
      {
        std::fprintf(stderr, "run %llu is not deterministic\n",
                     static_cast<unsigned long long>(i));
        control->error = true;
        ::_exit(2);
      }
    }
  }
  std::ofstream f(work_dir + "/totals." + std::to_string(w));
  f << t.runs << ' ' << t.nontrivial << ' ' << t.discarded << ' ' << t.judged
    << ' ' << t.steps << ' ' << t.sim_ns << ' ' << t.decisions << ' '
    << t.events << ' ' << t.reruns << ' ' << t.known << '\n';
  for (auto const& [name, n] : t.counters) f << n << ' ' << name << '\n';
  f.close();
  for (auto const& [name, s] :
       {std::pair<char const*, std::unordered_set<uint64_t>*> {"hashes", &t.hashes},
        {"states", &t.states},
        {"schedules", &t.schedules}})
  {
    std::vector<uint64_t> v(s->begin(), s->end());
    std::ofstream b(work_dir + "/" + name + "." + std::to_string(w), std::ios::binary);
    b.write(reinterpret_cast<char const*>(v.data()),
            static_cast<std::streamsize>(v.size() * sizeof(uint64_t)));
  }
  ::_exit(0);
}

static std::string json_string(std::string const& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c >= 127)
    {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}

static std::vector<std::string> capture(uint64_t seed,
                                        std::vector<uint64_t> const* trace,
                                        Outcome& o, size_t max_lines)
{
  std::string const path = work_dir + "/log";
  int const fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd < 0) harness_error("open %s: %s", path.c_str(), std::strerror(errno));
  o = execute(seed, trace, fd);
  ::close(fd);
  std::ifstream f(path);
  std::vector<std::string> lines;
  std::string l;
  size_t total = 0;
  while (std::getline(f, l))
  {
    ++total;
    lines.push_back(l);
    if (lines.size() > 2 * max_lines)
      lines.erase(lines.begin() + static_cast<long>(max_lines),
                  lines.begin() + static_cast<long>(max_lines) + 1);
  }
  if (total > lines.size())
    lines.insert(lines.begin() + static_cast<long>(max_lines),
                 "... (" + std::to_string(total - lines.size()) + " events)");
  return lines;
}

// Shortens the decision trace while the same class of violation remains.
static std::vector<uint64_t> minimise(std::vector<uint64_t> best,
                                      std::string const& cls, double deadline,
                                      uint64_t& candidates)
{
  auto const still_fails = [&](std::vector<uint64_t>& t) {
    ++candidates;
    Outcome const o = execute(0, &t, -1);
    if (o.verdict != Verdict::violation || o.cls != cls) return false;
    if (o.nchoices < t.size()) t.resize(o.nchoices);
    return true;
  };
  auto const trim = [](std::vector<uint64_t>& t) {
    while (!t.empty() && t.back() == 0) t.pop_back();
  };
  bool changed = true;
  while (changed && now_s() < deadline)
  {
    changed = false;
    for (size_t chunk = best.size(); chunk >= 1 && now_s() < deadline; chunk /= 2)
      for (size_t i = 0; i < best.size() && now_s() < deadline;)
      {
        auto t = best;
        t.erase(t.begin() + static_cast<long>(i),
                t.begin() + static_cast<long>(std::min(best.size(), i + chunk)));
        if (still_fails(t))
        {
          trim(t);
          best = t;
          changed = true;
        }
        else
          i += chunk;
      }
    for (size_t chunk = best.size() / 2; chunk >= 1 && now_s() < deadline; chunk /= 2)
      for (size_t i = 0; i < best.size() && now_s() < deadline; i += chunk)
      {
        auto t = best;
        bool any = false;
        for (size_t k = i; k < std::min(best.size(), i + chunk); ++k)
          if (t[k]) { t[k] = 0; any = true; }
        if (!any) continue;
        if (still_fails(t))
        {
          trim(t);
          best = t;
          changed = true;
        }
      }
    for (size_t i = 0; i < best.size() && now_s() < deadline; ++i)
    {
      auto const lower_to = [&](uint64_t v) {
        auto t = best;
        t[i] = v;
        if (!still_fails(t)) return false;
        trim(t);
        best = t;
        changed = true;
        return true;
      };
      if (best[i] > 1 && lower_to(1)) continue;
      for (uint64_t step = best[i] / 2; step >= 1 && now_s() < deadline; step /= 2)
        if (i < best.size() && best[i] > step) lower_to(best[i] - step);
    }
  }
  return best;
}

static void remap_shm()
{
  shm = static_cast<Shm*>(::mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (shm == MAP_FAILED) harness_error("mmap: %s", std::strerror(errno));
}

static int replay_main(std::string const& path)
{
  // {"property":..., "class":..., "hash":..., "choices":[...]}
  std::ifstream f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string const text = ss.str();
  auto const field = [&](std::string const& key) {
    auto const p = text.find("\"" + key + "\": ");
    return p == std::string::npos ? std::string() : text.substr(p + key.size() + 4);
  };
  std::string cls = field("class");
  if (cls.size() < 2) harness_error("not a replay file: %s", path.c_str());
  cls = cls.substr(1, cls.find('"', 1) - 1);
  uint64_t const hash = std::strtoull(field("hash").c_str() + 1, nullptr, 16);
  std::vector<uint64_t> trace;
  std::string c = field("choices");
  char const* p = c.c_str() + 1;
  while (*p && *p != ']')
  {
    char* e;
    uint64_t const v = std::strtoull(p, &e, 10);
    if (e == p) { ++p; continue; }
    trace.push_back(v);
    p = e;
  }
  Outcome a, b;
  auto const lines = capture(0, &trace, a, 400);
  b = execute(0, &trace, -1);
  for (auto const& l : lines) std::printf("  %s\n", l.c_str());
  if (a.verdict != Verdict::violation)
  {
    std::printf("replay: no violation (property %s held)\n", world.property);
    return 0;
  }
  bool const same = a.hash == b.hash && a.cls == b.cls && a.hash == hash && a.cls == cls;
  std::printf("replay: %s: %s\nreplay: hash %016llx, recorded %016llx: %s\n",
              a.cls.c_str(), a.msg.c_str(), static_cast<unsigned long long>(a.hash),
              static_cast<unsigned long long>(hash),
              same ? "reproduced exactly" : "DIFFERENT EXECUTION");
  return same ? 1 : 2;
}

static int search_main(uint64_t seed, uint64_t runs, double seconds,
                       unsigned workers, std::string const& replay_path,
                       std::vector<Known> const& known)
{
  double const start = now_s();
  auto* control = static_cast<Control*>(
    ::mmap(nullptr, sizeof(Control), PROT_READ | PROT_WRITE,
           MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  control->best = ~uint64_t(0);
  control->error = false;
  std::vector<pid_t> pids;
  for (unsigned w = 0; w < workers; ++w)
  {
    pid_t const pid = ::fork();
    if (pid < 0) harness_error("fork: %s", std::strerror(errno));
    if (pid == 0)
    {
      ::prctl(PR_SET_PDEATHSIG, SIGKILL);
      remap_shm();
      worker(w, workers, seed, runs, start + seconds, control, known);
    }
    pids.push_back(pid);
  }
  bool bad = false;
  for (pid_t pid : pids)
  {
    int status = 0;
    while (::waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    bad |= !WIFEXITED(status) || WEXITSTATUS(status) != 0;
  }
  if (bad)
  {
    std::fprintf(stderr, "a worker failed\n");
    return 2;
  }
  double const searched = now_s() - start;

  // merge
  Totals t;
  for (unsigned w = 0; w < workers; ++w)
  {
    std::ifstream f(work_dir + "/totals." + std::to_string(w));
    uint64_t v[10] = {};
    for (auto& x : v) f >> x;
    t.runs += v[0];
    t.nontrivial += v[1];
    t.discarded += v[2];
    t.judged += v[3];
    t.steps += v[4];
    t.sim_ns += v[5];
    t.decisions += v[6];
    t.events += v[7];
    t.reruns += v[8];
    t.known += v[9];
    uint64_t n;
    std::string name;
    while (f >> n && f.get() && std::getline(f, name)) t.counters[name] += n;
    for (auto const& [nm, s] :
         {std::pair<char const*, std::unordered_set<uint64_t>*> {"hashes", &t.hashes},
          {"states", &t.states},
          {"schedules", &t.schedules}})
    {
      std::ifstream b(work_dir + "/" + nm + "." + std::to_string(w), std::ios::binary);
      uint64_t x;
      while (b.read(reinterpret_cast<char*>(&x), sizeof x)) s->insert(x);
    }
  }

  std::ofstream out(work_dir + "/result.json");
  int rc = 0;
  std::string found = "null";
  if (control->best != ~uint64_t(0))
  {
    uint64_t const index = control->best;
    std::ifstream f(work_dir + "/found." + std::to_string(index));
    std::string cls, msg, l;
    std::getline(f, cls);
    uint64_t hash, n;
    f >> hash >> n;
    std::vector<uint64_t> trace(n);
    for (auto& x : trace) f >> x;
    f.get(); f.get();
    std::getline(f, msg);
    // gate: the same seed gives the same execution, and so does its trace
    Outcome const again = execute(run_seed(seed, index), nullptr, -1);
    Outcome const traced = execute(0, &trace, -1);
    bool const exact = again.verdict == Verdict::violation && again.cls == cls
                       && again.hash == hash && traced.verdict == Verdict::violation
                       && traced.cls == cls && traced.hash == hash;
    if (!exact)
    {
      std::fprintf(stderr, "run %llu: violation %s (%s) did not reproduce\n",
                   static_cast<unsigned long long>(index), cls.c_str(), msg.c_str());
      rc = 2;
    }
    else
    {
      uint64_t candidates = 0;
      double const budget = (cls == "hang" || cls == "stuck") ? 0 : 25;
      auto small = minimise(trace, cls, now_s() + budget, candidates);
      Outcome o;
      auto const lines = capture(0, &small, o, 200);
      if (o.verdict != Verdict::violation || o.cls != cls) 
      {
        std::fprintf(stderr, "the minimised trace does not reproduce (run %llu: %s, %s)\n", static_cast<unsigned long long>(index), cls.c_str(), msg.c_str());
        rc = 2;
      }
      else
      {
        std::ofstream r(replay_path);
        char h[32];
        std::snprintf(h, sizeof h, "%016llx", static_cast<unsigned long long>(o.hash));
        r << "{\n \"property\": " << json_string(world.property)
          << ",\n \"class\": " << json_string(cls)
          << ",\n \"message\": " << json_string(o.msg)
          << ",\n \"seed\": " << seed << ",\n \"run\": " << index
          << ",\n \"hash\": \"" << h << "\",\n \"decisions_found\": " << trace.size()
          << ",\n \"decisions_minimised\": " << small.size()
          << ",\n \"minimiser_runs\": " << candidates << ",\n \"choices\": [";
        for (size_t k = 0; k < small.size(); ++k) r << (k ? ", " : "") << small[k];
        r << "],\n \"events\": [";
        for (size_t k = 0; k < lines.size(); ++k)
          r << (k ? ",\n  " : "\n  ") << json_string(lines[k]);
        r << "\n ]\n}\n";
        found = "{\"class\": " + json_string(cls) + ", \"message\": " + json_string(o.msg)
                + ", \"run\": " + std::to_string(index)
                + ", \"decisions_found\": " + std::to_string(trace.size())
                + ", \"decisions_minimised\": " + std::to_string(small.size()) + "}";
        rc = 1;
      }
    }
  }

  out << "{\n \"runs\": " << t.runs << ",\n \"nontrivial\": " << t.nontrivial
      << ",\n \"distinct_nontrivial\": " << t.hashes.size()
      << ",\n \"discarded\": " << t.discarded << ",\n \"judged\": " << t.judged
      << ",\n \"steps\": " << t.steps << ",\n \"sim_ns\": " << t.sim_ns
      << ",\n \"decisions\": " << t.decisions << ",\n \"events\": " << t.events
      << ",\n \"determinism_reruns\": " << t.reruns << ",\n \"known\": " << t.known
      << ",\n \"distinct_states\": " << t.states.size()
      << ",\n \"distinct_schedules\": " << t.schedules.size()
      << ",\n \"search_s\": " << searched << ",\n \"found\": " << found
      << ",\n \"real\": " << json_string(world.real)
      << ",\n \"stub\": " << json_string(world.stub)
      << ",\n \"rule\": " << json_string(world.rule) << ",\n \"counters\": {";
  bool first = true;
  for (auto const& [name, n] : t.counters)
  {
    out << (first ? "\n  " : ",\n  ") << json_string(name) << ": " << n;
    first = false;
  }
  out << "\n },\n \"samples\": [";
  for (uint64_t i = 0; i < 3; ++i)
  {
    Outcome o;
    auto const lines = capture(run_seed(seed, i), nullptr, o, 20);
    out << (i ? ",\n  [" : "\n  [");
    for (size_t k = 0; k < lines.size(); ++k)
      out << (k ? ", " : "") << json_string(lines[k].substr(0, 200));
    out << "]";
  }
  out << "\n ]\n}\n";
  return rc;
}

} // namespace sim

int main(int argc, char** argv)
{
  using namespace sim;
  int const persona = ::personality(0xffffffff);
  if (persona != -1 && !(persona & ADDR_NO_RANDOMIZE) && !::getenv("SIM_NO_REEXEC"))
    if (::personality(static_cast<unsigned long>(persona) | ADDR_NO_RANDOMIZE) != -1)
    {
      ::setenv("SIM_NO_REEXEC", "1", 1);
      ::execv("/proc/self/exe", argv);
    }
  uint64_t seed = 1, runs = 1000, single = ~uint64_t(0);
  double seconds = 30;
  unsigned workers = 8;
  std::string replay, replay_out = "replay.json";
  std::vector<Known> known;
  work_dir = ".";
  for (int i = 1; i < argc; ++i)
  {
    std::string const a = argv[i];
    auto const value = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = std::stoull(value());
    else if (a == "--runs") runs = std::stoull(value());
    else if (a == "--time") seconds = std::stod(value());
    else if (a == "--workers") workers = static_cast<unsigned>(std::stoul(value()));
    else if (a == "--work") work_dir = value();
    else if (a == "--replay") replay = value();
    else if (a == "--replay-out") replay_out = value();
    else if (a == "--run") single = std::stoull(value());
    else if (a == "--known")
    {
      Known k;
      k.cls = value();
      k.pattern = value();
      known.push_back(k);
    }
    else harness_error("unknown argument %s", a.c_str());
  }
  arena = static_cast<char*>(::mmap(nullptr, arena_size, PROT_READ | PROT_WRITE,
                                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (arena == MAP_FAILED) harness_error("mmap: %s", std::strerror(errno));
  remap_shm();
  if (!replay.empty()) return replay_main(replay);
  if (single != ~uint64_t(0))
  {
    Outcome o;
    for (auto const& l : capture(run_seed(seed, single), nullptr, o, 100000))
      std::printf("%s\n", l.c_str());
    std::printf("verdict %d %s %s hash %016llx decisions %llu\n", int(o.verdict), o.cls.c_str(),
                o.msg.c_str(), static_cast<unsigned long long>(o.hash),
                static_cast<unsigned long long>(o.nchoices));
    return 0;
  }
  return search_main(seed, runs, seconds, workers, replay_out, known);
}
