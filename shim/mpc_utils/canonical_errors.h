// Offline stand-in for mpc_utils/canonical_errors.h.
#ifndef VERIF_SHIM_CANONICAL_ERRORS_H_
#define VERIF_SHIM_CANONICAL_ERRORS_H_
#include "absl/strings/string_view.h"
#include "mpc_utils/status.h"
namespace mpc_utils {
inline Status CancelledError(absl::string_view m) { return Status(StatusCode::kCancelled, m); }
inline bool IsCancelled(const Status& s) { return s.code() == StatusCode::kCancelled; }
inline Status UnknownError(absl::string_view m) { return Status(StatusCode::kUnknown, m); }
inline bool IsUnknown(const Status& s) { return s.code() == StatusCode::kUnknown; }
inline Status InvalidArgumentError(absl::string_view m) { return Status(StatusCode::kInvalidArgument, m); }
inline bool IsInvalidArgument(const Status& s) { return s.code() == StatusCode::kInvalidArgument; }
inline Status DeadlineExceededError(absl::string_view m) { return Status(StatusCode::kDeadlineExceeded, m); }
inline bool IsDeadlineExceeded(const Status& s) { return s.code() == StatusCode::kDeadlineExceeded; }
inline Status NotFoundError(absl::string_view m) { return Status(StatusCode::kNotFound, m); }
inline bool IsNotFound(const Status& s) { return s.code() == StatusCode::kNotFound; }
inline Status AlreadyExistsError(absl::string_view m) { return Status(StatusCode::kAlreadyExists, m); }
inline bool IsAlreadyExists(const Status& s) { return s.code() == StatusCode::kAlreadyExists; }
inline Status PermissionDeniedError(absl::string_view m) { return Status(StatusCode::kPermissionDenied, m); }
inline bool IsPermissionDenied(const Status& s) { return s.code() == StatusCode::kPermissionDenied; }
inline Status ResourceExhaustedError(absl::string_view m) { return Status(StatusCode::kResourceExhausted, m); }
inline bool IsResourceExhausted(const Status& s) { return s.code() == StatusCode::kResourceExhausted; }
inline Status FailedPreconditionError(absl::string_view m) { return Status(StatusCode::kFailedPrecondition, m); }
inline bool IsFailedPrecondition(const Status& s) { return s.code() == StatusCode::kFailedPrecondition; }
inline Status AbortedError(absl::string_view m) { return Status(StatusCode::kAborted, m); }
inline bool IsAborted(const Status& s) { return s.code() == StatusCode::kAborted; }
inline Status OutOfRangeError(absl::string_view m) { return Status(StatusCode::kOutOfRange, m); }
inline bool IsOutOfRange(const Status& s) { return s.code() == StatusCode::kOutOfRange; }
inline Status UnimplementedError(absl::string_view m) { return Status(StatusCode::kUnimplemented, m); }
inline bool IsUnimplemented(const Status& s) { return s.code() == StatusCode::kUnimplemented; }
inline Status InternalError(absl::string_view m) { return Status(StatusCode::kInternal, m); }
inline bool IsInternal(const Status& s) { return s.code() == StatusCode::kInternal; }
inline Status UnavailableError(absl::string_view m) { return Status(StatusCode::kUnavailable, m); }
inline bool IsUnavailable(const Status& s) { return s.code() == StatusCode::kUnavailable; }
inline Status DataLossError(absl::string_view m) { return Status(StatusCode::kDataLoss, m); }
inline bool IsDataLoss(const Status& s) { return s.code() == StatusCode::kDataLoss; }
inline Status UnauthenticatedError(absl::string_view m) { return Status(StatusCode::kUnauthenticated, m); }
inline bool IsUnauthenticated(const Status& s) { return s.code() == StatusCode::kUnauthenticated; }
}  // namespace mpc_utils
#endif
