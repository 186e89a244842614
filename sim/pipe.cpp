#include "pipe.hpp"
#include "sim.hpp"
#include "threads.hpp"

#include <cstring>

namespace sim {

static bool can_put(void* p)
{
  auto const& q = *static_cast<Pipe*>(p);
  return q.in - q.out < q.capacity;
}
static bool can_get(void* p)
{
  auto const& q = *static_cast<Pipe*>(p);
  return q.in != q.out || q.closed;
}
size_t pipe_used(Pipe const& p) { return p.in - p.out; }

void pipe_put(Pipe& p, char c)
{
  if (!can_put(&p))
  {
    count("fault:writer stalls on a full pipe");
    ev("full");
    block_until(can_put, &p, "pipe full");
  }
  p.ring[p.in++ % Pipe::max_capacity] = c;
  if (p.log)
  {
    if (p.log_size >= p.log_capacity) harness_error("pipe log full");
    p.log[p.log_size++] = c;
  }
  elapse(50);
  yield_point();
}
void pipe_close(Pipe& p) { p.closed = true; }

int pipe_get(Pipe& p, char* to, size_t n)
{
  yield_point();
  if (!can_get(&p))
  {
    count("fault:reader stalls on an empty pipe");
    ev("empty");
    block_until(can_get, &p, "pipe empty");
  }
  size_t k = p.in - p.out;
  if (k > n) k = n;
  if (k > 1 && k < n + 1 && chance(1, 2))
  {
    k = 1 + below(k);
    count("fault:short read");
  }
  for (size_t i = 0; i < k; ++i) to[i] = p.ring[p.out++ % Pipe::max_capacity];
  elapse(50);
  return static_cast<int>(k);
}

PipeOut::PipeOut(Pipe& p, unsigned buffer) : pipe(p), nbuf(buffer < sizeof buf ? buffer : sizeof buf)
{
  if (nbuf) setp(buf, buf + nbuf);
}
PipeOut::int_type PipeOut::overflow(int_type c)
{
  sync();
  if (c != traits_type::eof())
  {
    if (nbuf == 0) pipe_put(pipe, static_cast<char>(c));
    else
    {
      *pptr() = static_cast<char>(c);
      pbump(1);
    }
  }
  return traits_type::not_eof(c);
}
int PipeOut::sync()
{
  if (nbuf == 0) return 0;
  for (char const* p = pbase(); p < pptr(); ++p) pipe_put(pipe, *p);
  setp(buf, buf + nbuf);
  return 0;
}

PipeIn::PipeIn(Pipe& p, unsigned c) : pipe(p), chunk(c ? (c < sizeof buf ? c : sizeof buf) : 1) {}
PipeIn::int_type PipeIn::underflow()
{
  if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
  int const n = pipe_get(pipe, buf, chunk);
  if (n == 0) return traits_type::eof();
  setg(buf, buf, buf + n);
  return traits_type::to_int_type(*gptr());
}

} // namespace sim
