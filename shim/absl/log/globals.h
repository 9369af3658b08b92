#pragma once
namespace absl { enum class LogSeverityAtLeast { kInfo, kWarning, kError, kFatal, kInfinity };
inline void SetMinLogLevel(LogSeverityAtLeast) {} inline void SetStderrThreshold(LogSeverityAtLeast) {} inline void SetGlobalVLogLevel(int){} }
