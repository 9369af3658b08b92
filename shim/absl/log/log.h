#pragma once
#include "absl/log/check.h"
#define VC_LOG_INFO ::vc_shim::Null()
#define VC_LOG_WARNING ::vc_shim::Null()
#define VC_LOG_ERROR ::vc_shim::Null()
#define VC_LOG_FATAL ::vc_shim::Fatal("LOG(FATAL)")
#define LOG(s) VC_LOG_##s
#define LOG_IF(s,c) !(c) ? (void)0 : ::vc_shim::Voidify() && VC_LOG_##s
#define LOG_EVERY_N(s,n) VC_LOG_##s
#define LOG_EVERY_N_SEC(s,n) VC_LOG_##s
#define LOG_FIRST_N(s,n) VC_LOG_##s
#define DLOG(s) true ? (void)0 : ::vc_shim::Voidify() && VC_LOG_##s
#define VLOG(n) true ? (void)0 : ::vc_shim::Voidify() && ::vc_shim::Null()
#define VLOG_IS_ON(n) false
