#pragma once
#include "model.hpp"
#include <ieme/ops.hpp>
#include <type_traits>

template <typename Ops>
constexpr model::Policy policy_of()
{
  using namespace ieme::ops;
  if (std::is_same_v<Ops, safe>) return {true, false, false, "safe"};
  if (std::is_same_v<Ops, safe_reduced_i>) return {true, true, false, "safe_reduced_i"};
  if (std::is_same_v<Ops, safe_reduced_o>) return {true, false, true, "safe_reduced_o"};
  if (std::is_same_v<Ops, safe_reduced_io>) return {true, true, true, "safe_reduced_io"};
  if (std::is_same_v<Ops, fast>) return {false, false, false, "fast"};
  if (std::is_same_v<Ops, fast_reduced_i>) return {false, true, false, "fast_reduced_i"};
  if (std::is_same_v<Ops, fast_reduced_o>) return {false, false, true, "fast_reduced_o"};
  return {false, true, true, "fast_reduced_io"};
}
