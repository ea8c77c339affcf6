// Stand-in for Abseil's absl/log/absl_log.h (absent here): messages are
// formatted and dropped.
#ifndef VERIF_SHIM_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_H_
#include <ostream>
#include <sstream>
#define ABSL_LOG(sev) ::std::ostringstream()
#define ABSL_LOG_FIRST_N(sev, n) ::std::ostringstream()
#define ABSL_VLOG(n) ::std::ostringstream()
#define ABSL_LOG_IF(sev, c) ::std::ostringstream()
#define ABSL_DLOG(sev) ::std::ostringstream()
#endif
