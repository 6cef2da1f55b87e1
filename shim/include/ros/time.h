// Simulated ros::Time / ros::Duration (same normalisation and range rules as roscpp).
#ifndef SHIM_ROS_TIME_H
#define SHIM_ROS_TIME_H
#include <cmath>
#include <cstdint>
#include <iostream>
#include <limits>
#include <stdexcept>
namespace ros
{
inline void normSigned(int64_t& sec, int64_t& nsec)
{
  sec += nsec / 1000000000LL;
  nsec = nsec % 1000000000LL;
  if (nsec < 0)
  {
    nsec += 1000000000LL;
    sec -= 1;
  }
}
class Duration
{
public:
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  Duration(int32_t s, int32_t n)
  {
    set(s, n);
  }
  explicit Duration(double t)
  {
    fromSec(t);
  }
  void set(int64_t s, int64_t n)
  {
    normSigned(s, n);
    if (s < std::numeric_limits<int32_t>::min() || s > std::numeric_limits<int32_t>::max())
      throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = static_cast<int32_t>(s);
    nsec = static_cast<int32_t>(n);
  }
  Duration& fromSec(double d)
  {
    if (!(std::abs(d) < 2147483647.0))
      throw std::runtime_error("Duration is out of dual 32-bit range");
    const int64_t s = static_cast<int64_t>(std::floor(d));
    set(s, static_cast<int64_t>(std::round((d - s) * 1e9)));
    return *this;
  }
  Duration& fromNSec(int64_t t)
  {
    set(t / 1000000000LL, t % 1000000000LL);
    return *this;
  }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000LL + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  Duration operator+(const Duration& r) const { return Duration().fromNSec(toNSec() + r.toNSec()); }
  Duration operator-(const Duration& r) const { return Duration().fromNSec(toNSec() - r.toNSec()); }
  Duration operator-() const { return Duration().fromNSec(-toNSec()); }
  Duration operator*(double s) const { return Duration(toSec() * s); }
  Duration operator/(double s) const { return Duration(toSec() / s); }
  Duration& operator+=(const Duration& r) { return *this = *this + r; }
  Duration& operator-=(const Duration& r) { return *this = *this - r; }
  Duration& operator*=(double s) { return *this = *this * s; }
  bool operator==(const Duration& r) const { return toNSec() == r.toNSec(); }
  bool operator!=(const Duration& r) const { return toNSec() != r.toNSec(); }
  bool operator<(const Duration& r) const { return toNSec() < r.toNSec(); }
  bool operator>(const Duration& r) const { return toNSec() > r.toNSec(); }
  bool operator<=(const Duration& r) const { return toNSec() <= r.toNSec(); }
  bool operator>=(const Duration& r) const { return toNSec() >= r.toNSec(); }
  bool sleep() const;
};
class Time
{
public:
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t n)
  {
    set(s, n);
  }
  explicit Time(double t)
  {
    fromSec(t);
  }
  void set(int64_t s, int64_t n)
  {
    normSigned(s, n);
    if (s < 0 || s > std::numeric_limits<uint32_t>::max())
      throw std::runtime_error("Time is out of dual 32-bit range");
    sec = static_cast<uint32_t>(s);
    nsec = static_cast<uint32_t>(n);
  }
  Time& fromSec(double t)
  {
    if (!(t >= 0 && t < 4294967295.0))
      throw std::runtime_error("Time is out of dual 32-bit range");
    const int64_t s = static_cast<int64_t>(std::floor(t));
    set(s, static_cast<int64_t>(std::round((t - s) * 1e9)));
    return *this;
  }
  Time& fromNSec(uint64_t t)
  {
    set(static_cast<int64_t>(t / 1000000000ULL), static_cast<int64_t>(t % 1000000000ULL));
    return *this;
  }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ULL + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool is_zero() const { return isZero(); }
  Duration operator-(const Time& r) const
  {
    return Duration().fromNSec(static_cast<int64_t>(toNSec()) - static_cast<int64_t>(r.toNSec()));
  }
  Time operator+(const Duration& r) const
  {
    Time t;
    const int64_t n = static_cast<int64_t>(toNSec()) + r.toNSec();
    if (n < 0)
      throw std::runtime_error("Time is out of dual 32-bit range");
    t.fromNSec(n);
    return t;
  }
  Time operator-(const Duration& r) const { return *this + (-r); }
  Time& operator+=(const Duration& r) { return *this = *this + r; }
  Time& operator-=(const Duration& r) { return *this = *this - r; }
  bool operator==(const Time& r) const { return toNSec() == r.toNSec(); }
  bool operator!=(const Time& r) const { return toNSec() != r.toNSec(); }
  bool operator<(const Time& r) const { return toNSec() < r.toNSec(); }
  bool operator>(const Time& r) const { return toNSec() > r.toNSec(); }
  bool operator<=(const Time& r) const { return toNSec() <= r.toNSec(); }
  bool operator>=(const Time& r) const { return toNSec() >= r.toNSec(); }
  static Time now();
  static void init() {}
  static bool isSimTime();
  static bool isSystemTime() { return !isSimTime(); }
  static bool isValid() { return true; }
  static bool waitForValid() { return true; }
  static bool sleepUntil(const Time& t);
};
inline std::ostream& operator<<(std::ostream& o, const Time& t) { return o << t.toNSec() * 1e-9; }
inline std::ostream& operator<<(std::ostream& o, const Duration& t) { return o << t.toNSec() * 1e-9; }
extern const Time TIME_MIN, TIME_MAX;
extern const Duration DURATION_MIN, DURATION_MAX;
// Wall time is the simulated time as well: nothing in a case may depend on the real clock.
typedef Duration WallDuration;
typedef Time WallTime;
typedef Time SteadyTime;
class Rate
{
public:
  explicit Rate(double hz) : start_(Time::now()), expected_(1.0 / hz) {}
  explicit Rate(const Duration& d) : start_(Time::now()), expected_(d) {}
  bool sleep();
  void reset() { start_ = Time::now(); }
  Duration expectedCycleTime() const { return expected_; }
  Duration cycleTime() const { return expected_; }

private:
  Time start_;
  Duration expected_;
};
typedef Rate WallRate;
}  // namespace ros
#endif
