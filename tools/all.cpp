#include <cstring>
#include <ieme/ieme.hpp>
#include <ieme/numbers.hpp>
