#include "het.hpp"

namespace het {

static Table const* tables[policies];
Register::Register(Table const& t) { tables[t.index] = &t; }
Table const* const* all() { return tables; }

} // namespace het
