// Offline stand-in for mpc_utils/statusor.h.
#ifndef VERIF_SHIM_STATUSOR_H_
#define VERIF_SHIM_STATUSOR_H_
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <type_traits>
#include <utility>
#include "absl/types/optional.h"
#include "mpc_utils/status.h"
namespace mpc_utils {
template <typename T>
class StatusOr {
 public:
  using value_type = T;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const Status& s) : status_(s) { CheckNotOk(); }
  StatusOr(Status&& s) : status_(std::move(s)) { CheckNotOk(); }
  StatusOr(const T& v) : value_(v) {}
  StatusOr(T&& v) : value_(std::move(v)) {}
  template <typename U, typename = typename std::enable_if<
      std::is_convertible<U, T>::value && !std::is_same<typename std::decay<U>::type, T>::value &&
      !std::is_same<typename std::decay<U>::type, Status>::value &&
      !std::is_same<typename std::decay<U>::type, StatusOr<T>>::value>::type>
  StatusOr(U&& v) : value_(T(std::forward<U>(v))) {}
  template <typename U, typename = typename std::enable_if<!std::is_same<U, T>::value>::type>
  StatusOr(const StatusOr<U>& o) {
    if (o.ok()) value_ = T(o.ValueOrDie()); else status_ = o.status();
  }
  template <typename U, typename = typename std::enable_if<!std::is_same<U, T>::value>::type>
  StatusOr(StatusOr<U>&& o) {
    if (o.ok()) value_ = T(std::move(o).ValueOrDie()); else status_ = o.status();
  }
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr& o) {
    status_ = o.status_;
    value_.reset();
    if (o.value_) value_.emplace(*o.value_);
    return *this;
  }
  StatusOr& operator=(StatusOr&& o) {
    status_ = std::move(o.status_);
    value_.reset();
    if (o.value_) value_.emplace(std::move(*o.value_));
    return *this;
  }
  bool ok() const { return value_.has_value(); }
  explicit operator bool() const { return ok(); }
  const Status& status() const & {
    return status_;
  }
  Status status() && { return std::move(status_); }
  const T& ValueOrDie() const & { Ensure(); return *value_; }
  T& ValueOrDie() & { Ensure(); return *value_; }
  T&& ValueOrDie() && { Ensure(); return std::move(*value_); }
  const T& value() const & { return ValueOrDie(); }
  T& value() & { return ValueOrDie(); }
  T&& value() && { Ensure(); return std::move(*value_); }
  const T& operator*() const & { return ValueOrDie(); }
  T& operator*() & { return ValueOrDie(); }
  const T* operator->() const { Ensure(); return &*value_; }
  T* operator->() { Ensure(); return &*value_; }
 private:
  void CheckNotOk() {
    if (status_.ok()) status_ = Status(StatusCode::kInternal, "StatusOr constructed from OK");
  }
  void Ensure() const {
    if (!value_) {
      std::fprintf(stderr, "ValueOrDie on error: %s\n", status_.ToString().c_str());
      std::abort();
    }
  }
  Status status_;
  absl::optional<T> value_;
};
}  // namespace mpc_utils
#endif
