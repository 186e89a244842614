// A bounded byte pipe between two scheduled threads.
#pragma once
#include <cstddef>
#include <streambuf>

namespace sim {

struct Pipe {
  static constexpr size_t max_capacity = 64;
  char ring[max_capacity];
  size_t capacity = 8;
  size_t in = 0, out = 0;
  bool closed = false;
  char* log = nullptr;      // everything written, when set
  size_t log_size = 0, log_capacity = 0;
};
void pipe_put(Pipe&, char);
void pipe_close(Pipe&);
int pipe_get(Pipe&, char* to, size_t n); // number of bytes, 0: end
size_t pipe_used(Pipe const&);

class PipeOut : public std::streambuf {
public:
  PipeOut(Pipe& p, unsigned buffer);
protected:
  int_type overflow(int_type) override;
  int sync() override;
private:
  Pipe& pipe;
  unsigned nbuf;
  char buf[32];
};

class PipeIn : public std::streambuf {
public:
  PipeIn(Pipe& p, unsigned chunk);
protected:
  int_type underflow() override;
private:
  Pipe& pipe;
  unsigned chunk;
  char buf[32];
};

} // namespace sim
