#ifndef SHIM_ROS_CONSOLE_H
#define SHIM_ROS_CONSOLE_H
#include <cassert>
#include <cstdarg>
#include <map>
#include <sstream>
#include <string>
#include <iostream>
namespace sim
{
void logf(char level, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
}
namespace ros
{
namespace console
{
namespace levels
{
enum Level { Debug, Info, Warn, Error, Fatal, Count };
}
typedef levels::Level Level;
inline bool set_logger_level(const std::string&, Level) { return true; }
inline void notifyLoggerLevelsChanged() {}
inline bool get_loggers(std::map<std::string, levels::Level>&) { return true; }
}  // namespace console
}  // namespace ros
#define ROSCONSOLE_DEFAULT_NAME "ros"
#define SHIM_LOG(L, ...) do { ::sim::logf(L, __VA_ARGS__); } while (0)
#define SHIM_LOGS(L, args) do { std::stringstream shim_ss_; shim_ss_ << args; ::sim::logf(L, "%s", shim_ss_.str().c_str()); } while (0)
#define ROS_DEBUG(...) SHIM_LOG('D', __VA_ARGS__)
#define ROS_INFO(...) SHIM_LOG('I', __VA_ARGS__)
#define ROS_WARN(...) SHIM_LOG('W', __VA_ARGS__)
#define ROS_ERROR(...) SHIM_LOG('E', __VA_ARGS__)
#define ROS_FATAL(...) SHIM_LOG('F', __VA_ARGS__)
#define ROS_DEBUG_ONCE(...) SHIM_LOG('D', __VA_ARGS__)
#define ROS_INFO_ONCE(...) SHIM_LOG('I', __VA_ARGS__)
#define ROS_WARN_ONCE(...) SHIM_LOG('W', __VA_ARGS__)
#define ROS_ERROR_ONCE(...) SHIM_LOG('E', __VA_ARGS__)
#define ROS_FATAL_ONCE(...) SHIM_LOG('F', __VA_ARGS__)
#define ROS_DEBUG_THROTTLE(p, ...) SHIM_LOG('D', __VA_ARGS__)
#define ROS_INFO_THROTTLE(p, ...) SHIM_LOG('I', __VA_ARGS__)
#define ROS_WARN_THROTTLE(p, ...) SHIM_LOG('W', __VA_ARGS__)
#define ROS_ERROR_THROTTLE(p, ...) SHIM_LOG('E', __VA_ARGS__)
#define ROS_FATAL_THROTTLE(p, ...) SHIM_LOG('F', __VA_ARGS__)
#define ROS_DEBUG_DELAYED_THROTTLE(p, ...) SHIM_LOG('D', __VA_ARGS__)
#define ROS_INFO_DELAYED_THROTTLE(p, ...) SHIM_LOG('I', __VA_ARGS__)
#define ROS_WARN_DELAYED_THROTTLE(p, ...) SHIM_LOG('W', __VA_ARGS__)
#define ROS_ERROR_DELAYED_THROTTLE(p, ...) SHIM_LOG('E', __VA_ARGS__)
#define ROS_DEBUG_COND(c, ...) do { if (c) SHIM_LOG('D', __VA_ARGS__); } while (0)
#define ROS_INFO_COND(c, ...) do { if (c) SHIM_LOG('I', __VA_ARGS__); } while (0)
#define ROS_WARN_COND(c, ...) do { if (c) SHIM_LOG('W', __VA_ARGS__); } while (0)
#define ROS_ERROR_COND(c, ...) do { if (c) SHIM_LOG('E', __VA_ARGS__); } while (0)
#define ROS_DEBUG_NAMED(n, ...) SHIM_LOG('D', __VA_ARGS__)
#define ROS_INFO_NAMED(n, ...) SHIM_LOG('I', __VA_ARGS__)
#define ROS_WARN_NAMED(n, ...) SHIM_LOG('W', __VA_ARGS__)
#define ROS_ERROR_NAMED(n, ...) SHIM_LOG('E', __VA_ARGS__)
#define ROS_DEBUG_STREAM(a) SHIM_LOGS('D', a)
#define ROS_INFO_STREAM(a) SHIM_LOGS('I', a)
#define ROS_WARN_STREAM(a) SHIM_LOGS('W', a)
#define ROS_ERROR_STREAM(a) SHIM_LOGS('E', a)
#define ROS_FATAL_STREAM(a) SHIM_LOGS('F', a)
#define ROS_DEBUG_STREAM_THROTTLE(p, a) SHIM_LOGS('D', a)
#define ROS_INFO_STREAM_THROTTLE(p, a) SHIM_LOGS('I', a)
#define ROS_WARN_STREAM_THROTTLE(p, a) SHIM_LOGS('W', a)
#define ROS_ERROR_STREAM_THROTTLE(p, a) SHIM_LOGS('E', a)
#define ROS_INFO_STREAM_ONCE(a) SHIM_LOGS('I', a)
#define ROS_WARN_STREAM_ONCE(a) SHIM_LOGS('W', a)
#define ROS_ERROR_STREAM_ONCE(a) SHIM_LOGS('E', a)
#define ROS_ASSERT(c) assert(c)
#define ROS_ASSERT_MSG(c, ...) assert(c)
#define ROS_BREAK() abort()
#endif
