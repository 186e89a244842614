// Compiled once per policy: -DPOLICY=safe ...
#include "calc_impl.hpp"
CALC_INSTANCE(std::int64_t, POLICY, i64)
CALC_INSTANCE(int, POLICY, i32)
CALC_INSTANCE(unsigned, POLICY, u32)
