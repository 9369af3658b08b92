#pragma once
#include "absl/log/check.h"
namespace vc_shim { template<typename T> T DieIfNull(T&& t) { if (t == nullptr) vc_check_failed("non-null pointer"); return std::forward<T>(t);} }
#define ABSL_DIE_IF_NULL(p) ::vc_shim::DieIfNull(p)
