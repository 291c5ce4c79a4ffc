// stub: logging has no effect on the properties
#pragma once
#include <string_view>
namespace spdlog {
template <typename... A> inline void info(const A &...) noexcept {}
template <typename... A> inline void debug(const A &...) noexcept {}
template <typename... A> inline void warn(const A &...) noexcept {}
template <typename... A> inline void error(const A &...) noexcept {}
template <typename... A> inline void critical(const A &...) noexcept {}
namespace level { enum level_enum { trace, debug, info, warn, err, critical, off }; }
inline void set_level(level::level_enum) {}
} // namespace spdlog
#ifdef VC_QUIET_LOG
// log calls vanish together with their arguments
namespace spdlog { constexpr int quiet = 0; }
#define info(...) quiet
#define debug(...) quiet
#define warn(...) quiet
#define error(...) quiet
#define critical(...) quiet
#endif
