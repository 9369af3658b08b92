// Stand-in for absl::Status and absl::StatusOr: a code, no message.
#pragma once
#define ABSL_STATUS_STATUS_H_
#define ABSL_STATUS_STATUSOR_H_
#include <cstdlib>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <utility>
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
extern "C" [[noreturn]] void vc_check_failed(char const* what);
namespace absl {
enum class StatusCode : int { kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13,
  kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16 };
class Status {
 public:
  Status() = default;
  explicit Status(StatusCode c) : code_(c) {}
  template<typename M> Status(StatusCode c, M const&) : code_(c) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return static_cast<int>(code_); }
  std::string_view message() const { return ""; }
  std::string ToString() const { return ""; }
  void Update(Status const& s) { if (ok()) code_ = s.code_; }
  void IgnoreError() const {}
  friend bool operator==(Status const& a, Status const& b) { return a.code_ == b.code_; }
  friend bool operator!=(Status const& a, Status const& b) { return a.code_ != b.code_; }
 private:
  StatusCode code_ = StatusCode::kOk;
};
inline std::ostream& operator<<(std::ostream& o, Status const&) { return o; }
inline Status OkStatus() { return {}; }
#define VC_STATUS(n) template<typename M> Status n##Error(M const&) { return Status(StatusCode::k##n); } \
  inline bool Is##n(Status const& s) { return s.code() == StatusCode::k##n; }
VC_STATUS(Cancelled) VC_STATUS(Unknown) VC_STATUS(InvalidArgument) VC_STATUS(DeadlineExceeded) VC_STATUS(NotFound) VC_STATUS(AlreadyExists)
VC_STATUS(PermissionDenied) VC_STATUS(ResourceExhausted) VC_STATUS(FailedPrecondition) VC_STATUS(Aborted) VC_STATUS(OutOfRange)
VC_STATUS(Unimplemented) VC_STATUS(Internal) VC_STATUS(Unavailable) VC_STATUS(DataLoss) VC_STATUS(Unauthenticated)
#undef VC_STATUS
template<typename T>
class StatusOr {
 public:
  using value_type = T;
  StatusOr() : s_(StatusCode::kUnknown) {}
  StatusOr(Status const& s) : s_(s) { if (s.ok()) vc_check_failed("StatusOr constructed from an OK status"); }
  StatusOr(T const& t) : v_(t) {}
  StatusOr(T&& t) : v_(std::move(t)) {}
  template<typename U> requires std::is_convertible_v<U&&, T> && (!std::is_same_v<std::remove_cvref_t<U>, Status>) && (!std::is_same_v<std::remove_cvref_t<U>, StatusOr>)
  StatusOr(U&& u) : v_(std::forward<U>(u)) {}
  bool ok() const { return s_.ok(); }
  Status const& status() const { return s_; }
  T& value() & { need(); return *v_; }
  T const& value() const& { need(); return *v_; }
  T&& value() && { need(); return *std::move(v_); }
  T& operator*() & { need(); return *v_; }
  T const& operator*() const& { need(); return *v_; }
  T&& operator*() && { need(); return *std::move(v_); }
  T* operator->() { need(); return &*v_; }
  T const* operator->() const { need(); return &*v_; }
  template<typename U> T value_or(U&& u) const { return v_.has_value() ? *v_ : static_cast<T>(std::forward<U>(u)); }
 private:
  void need() const { if (!v_.has_value()) vc_check_failed("value() of an erroneous StatusOr"); }
  Status s_;
  std::optional<T> v_;
};
}
