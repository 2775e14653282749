// Offline stand-in for mpc_utils' Status (same interface as the part of
// github.com/schoppmp/mpc-utils that this project uses).
#ifndef VERIF_SHIM_STATUS_H_
#define VERIF_SHIM_STATUS_H_
#include <ostream>
#include <string>
#include "absl/strings/string_view.h"
namespace mpc_utils {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3,
  kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9,
  kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13,
  kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16,
};
inline const char* StatusCodeName(StatusCode c) {
  static const char* names[] = {
      "OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED",
      "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED",
      "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED",
      "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  int i = static_cast<int>(c);
  return (i >= 0 && i <= 16) ? names[i] : "?";
}
inline std::string StatusCodeToString(StatusCode c) { return StatusCodeName(c); }
inline std::ostream& operator<<(std::ostream& os, StatusCode c) {
  return os << StatusCodeName(c);
}
class Status {
 public:
  Status() : code_(StatusCode::kOk) {}
  Status(StatusCode code, absl::string_view message)
      : code_(code),
        message_(code == StatusCode::kOk
                     ? std::string()
                     : std::string(message.data() ? message.data() : "",
                                   message.data() ? message.size() : 0)) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int error_code() const { return static_cast<int>(code_); }
  const std::string& message() const { return message_; }
  const std::string& error_message() const { return message_; }
  std::string ToString() const {
    return ok() ? "OK" : std::string(StatusCodeName(code_)) + ": " + message_;
  }
  void IgnoreError() const {}
  void Update(const Status& s) { if (ok()) *this = s; }
  bool operator==(const Status& o) const {
    return code_ == o.code_ && message_ == o.message_;
  }
  bool operator!=(const Status& o) const { return !(*this == o); }
 private:
  StatusCode code_;
  std::string message_;
};
inline Status OkStatus() { return Status(); }
inline std::ostream& operator<<(std::ostream& os, const Status& s) {
  return os << s.ToString();
}
}  // namespace mpc_utils
#endif
