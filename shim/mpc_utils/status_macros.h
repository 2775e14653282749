// Offline stand-in for mpc_utils/status_macros.h.
#ifndef VERIF_SHIM_STATUS_MACROS_H_
#define VERIF_SHIM_STATUS_MACROS_H_
#include "mpc_utils/status.h"
#include "mpc_utils/statusor.h"
#define VERIF_CAT2(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT2(a, b)
#define RETURN_IF_ERROR(expr)                     \
  do {                                            \
    auto verif_status_ = (expr);                  \
    if (!verif_status_.ok()) return verif_status_; \
  } while (0)
#define ASSIGN_OR_RETURN(lhs, ...) \
  VERIF_ASSIGN_OR_RETURN_IMPL(VERIF_CAT(verif_sor_, __COUNTER__), lhs, (__VA_ARGS__))
#define VERIF_ASSIGN_OR_RETURN_IMPL(var, lhs, expr) \
  auto var = expr;                                  \
  if (!var.ok()) return std::move(var).status();    \
  lhs = std::move(var).ValueOrDie();
#endif
