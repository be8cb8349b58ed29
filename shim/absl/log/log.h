// Minimal stand-in for absl/log (absent from the distribution's abseil).
// Only the surface used by vmecpp: LOG(INFO|WARNING|ERROR|FATAL), CHECK*.
// FATAL and failed CHECKs print "VP_FATAL <file>:<line>] msg" and abort(), as abseil does.
#pragma once
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace vp_shim_log {
struct Msg {
  std::ostringstream os;
  const char* sev; bool fatal;
  Msg(const char* s, bool f, const char* file, int line) : sev(s), fatal(f) {
    os << file << ":" << line << "] ";
  }
  ~Msg() {
    if (fatal) {
      std::string m = std::string("VP_FATAL ") + os.str() + "\n";
      fwrite(m.data(), 1, m.size(), stderr); fflush(nullptr);
      std::abort();
    }
    const char* q = getenv("VP_LOG");
    if (q && *q == '1') { std::string m = std::string(sev) + " " + os.str() + "\n"; fwrite(m.data(), 1, m.size(), stderr); }
  }
  std::ostream& stream() { return os; }
};
struct Voidify { void operator&(std::ostream&) {} void operator&(Msg&) {} };
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <class T> const absl::Status& AsStatus(const absl::StatusOr<T>& s) { return s.status(); }
}  // namespace vp_shim_log
#define VP_SHIM_SEV_INFO "I", false
#define VP_SHIM_SEV_WARNING "W", false
#define VP_SHIM_SEV_ERROR "E", false
#define VP_SHIM_SEV_FATAL "F", true
#define VP_SHIM_LOG2(...) ::vp_shim_log::Msg(__VA_ARGS__, __FILE__, __LINE__).stream()
#define LOG(sev) VP_SHIM_LOG2(VP_SHIM_SEV_##sev)
#define LOG_IF(sev, c) !(c) ? (void)0 : ::vp_shim_log::Voidify() & LOG(sev)
#define DLOG(sev) LOG_IF(sev, false)
#define VLOG(n) LOG_IF(INFO, (n) < 0)
#define LOG_FIRST_N(sev, n) LOG(sev)
#define LOG_EVERY_N(sev, n) LOG(sev)
#define VP_SHIM_SEV_DFATAL "E", false
#define VP_SHIM_SEV_QFATAL "F", true
