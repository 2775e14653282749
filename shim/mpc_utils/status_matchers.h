// Offline stand-in for mpc_utils/status_matchers.h.
#ifndef VERIF_SHIM_STATUS_MATCHERS_H_
#define VERIF_SHIM_STATUS_MATCHERS_H_
#include "gtest/gtest.h"
#include "mpc_utils/status_macros.h"
#define ASSERT_OK_AND_ASSIGN(lhs, ...) \
  VERIF_ASSERT_OK_IMPL(VERIF_CAT(verif_sor_, __COUNTER__), lhs, (__VA_ARGS__))
#define VERIF_ASSERT_OK_IMPL(var, lhs, expr)                \
  auto var = expr;                                          \
  ASSERT_TRUE(var.ok()) << var.status().message();          \
  lhs = std::move(var).ValueOrDie();
#define EXPECT_OK(e) EXPECT_TRUE((e).ok())
#define ASSERT_OK(e) ASSERT_TRUE((e).ok())
#endif
