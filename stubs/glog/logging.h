// Declarations-only stand-in (see arrow/_all.h).
#pragma once
#include <ostream>
#include <string>
namespace google {
using LogSeverity = int;
const int GLOG_INFO = 0, GLOG_WARNING = 1, GLOG_ERROR = 2, GLOG_FATAL = 3;
class LogMessage { public: LogMessage(const char*, int, LogSeverity); LogMessage(const char*, int); std::ostream& stream(); };
void RawLog__(LogSeverity, const char*, int, const char*, ...);
void InitGoogleLogging(const char*);
bool IsGoogleLoggingInitialized();
void ShutdownGoogleLogging();
}
