#pragma once
#include <cstdint>
namespace sim::internal {
extern bool in_run;           // this process is executing a run
void* arena_alloc(std::size_t size, std::size_t align);
} // namespace sim::internal
