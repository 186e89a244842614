#include "span.hpp"

#include <cstring>
#include <utility>

namespace span {

static Table const* tables[16];
static int count = 0;
Register::Register(Table const& t) { tables[count++] = &t; }
Table const* const* all(int& n)
{
  for (int i = 1; i < count; ++i)
    for (int k = i; k > 0 && std::strcmp(tables[k]->policy.name, tables[k - 1]->policy.name) < 0; --k)
      std::swap(tables[k], tables[k - 1]);
  n = count;
  return tables;
}

} // namespace span
