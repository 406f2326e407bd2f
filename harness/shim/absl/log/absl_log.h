// Stand-in for Abseil's logging (the installed Abseil has no absl/log): a fatal log calls vh_fatal, which does not return.
#pragma once
extern "C" [[noreturn]] void vh_fatal();
namespace vh_log {
struct Fatal {
  [[noreturn]] Fatal() { vh_fatal(); }
  template<typename T> Fatal& operator<<(const T&) { return *this; }
};
struct Quiet {
  template<typename T> constexpr const Quiet& operator<<(const T&) const { return *this; }
};
}  // namespace vh_log
#define ABSL_LOG_IF(severity, condition) if (!(condition)) {} else ::vh_log::Fatal()
#define ABSL_DLOG(severity) if (true) {} else ::vh_log::Quiet()
#define ABSL_LOG(severity) ::vh_log::Fatal()
