// Names of status codes of Status and StatusOr.
#ifndef VERIF_HARNESS_VSTATUS_H_
#define VERIF_HARNESS_VSTATUS_H_
#include <string>
#include "mpc_utils/status.h"
#include "mpc_utils/statusor.h"
namespace vh {
inline std::string Code(const mpc_utils::Status& s) { return mpc_utils::StatusCodeName(s.code()); }
template <typename T> std::string Code(const mpc_utils::StatusOr<T>& s) { return s.ok() ? "OK" : Code(s.status()); }
}  // namespace vh
#endif
