// ROS 1 wire format over the generated allFields visitors.
#ifndef SHIM_ROS_SERIALIZATION_H
#define SHIM_ROS_SERIALIZATION_H
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <boost/array.hpp>
#include <ros/time.h>
namespace ros
{
namespace serialization
{
struct StreamOverrunException : public std::runtime_error
{
  explicit StreamOverrunException(const std::string& w) : std::runtime_error(w) {}
};
struct Base
{
  uint8_t* data_;
  uint32_t count_;
  Base(uint8_t* d, uint32_t n) : data_(d), count_(n) {}
  uint8_t* advance(uint32_t n)
  {
    if (n > count_)
      throw StreamOverrunException("Buffer Overrun");
    uint8_t* p = data_;
    data_ += n;
    count_ -= n;
    return p;
  }
  uint8_t* getData() { return data_; }
  uint32_t getLength() { return count_; }
};
struct OStream : public Base
{
  using Base::Base;
  template <class T>
  typename std::enable_if<std::is_arithmetic<T>::value>::type next(const T& v)
  {
    memcpy(advance(sizeof(T)), &v, sizeof(T));
  }
  void next(const std::string& s)
  {
    next(static_cast<uint32_t>(s.size()));
    memcpy(advance(s.size()), s.data(), s.size());
  }
  void next(const Time& t)
  {
    next(t.sec);
    next(t.nsec);
  }
  void next(const Duration& t)
  {
    next(t.sec);
    next(t.nsec);
  }
  template <class T, size_t N>
  void next(const boost::array<T, N>& a)
  {
    for (const T& v : a)
      next(v);
  }
  template <class T>
  void next(const std::vector<T>& a)
  {
    next(static_cast<uint32_t>(a.size()));
    for (const auto& v : a)
      next(static_cast<const T&>(v));
  }
  template <class T>
  typename std::enable_if<std::is_class<T>::value>::type next(const T& m)
  {
    T::allFields(*this, m);
  }
};
struct LStream
{
  uint32_t n = 0;
  template <class T>
  typename std::enable_if<std::is_arithmetic<T>::value>::type next(const T&)
  {
    n += sizeof(T);
  }
  void next(const std::string& s) { n += 4 + s.size(); }
  void next(const Time&) { n += 8; }
  void next(const Duration&) { n += 8; }
  template <class T, size_t N>
  void next(const boost::array<T, N>& a)
  {
    for (const T& v : a)
      next(v);
  }
  template <class T>
  void next(const std::vector<T>& a)
  {
    n += 4;
    for (const auto& v : a)
      next(static_cast<const T&>(v));
  }
  template <class T>
  typename std::enable_if<std::is_class<T>::value>::type next(const T& m)
  {
    T::allFields(*this, m);
  }
};
struct IStream : public Base
{
  using Base::Base;
  template <class T>
  typename std::enable_if<std::is_arithmetic<T>::value>::type next(T& v)
  {
    memcpy(&v, advance(sizeof(T)), sizeof(T));
  }
  void next(std::string& s)
  {
    uint32_t n;
    next(n);
    if (n > count_)
      throw StreamOverrunException("Buffer Overrun");
    s.assign(reinterpret_cast<char*>(advance(n)), n);
  }
  void next(Time& t)
  {
    next(t.sec);
    next(t.nsec);
  }
  void next(Duration& t)
  {
    next(t.sec);
    next(t.nsec);
  }
  template <class T, size_t N>
  void next(boost::array<T, N>& a)
  {
    for (T& v : a)
      next(v);
  }
  template <class T>
  void next(std::vector<T>& a)
  {
    uint32_t n;
    next(n);
    // Like roscpp this resizes first; an absurd length must not exhaust the machine here.
    if (n > count_ && n > 1024 * 1024)
      throw std::bad_alloc();
    a.resize(n);
    for (auto& v : a)
      next(v);
  }
  template <class T>
  typename std::enable_if<std::is_class<T>::value>::type next(T& m)
  {
    T::allFields(*this, m);
  }
};
template <class M>
uint32_t serializationLength(const M& m)
{
  LStream l;
  l.next(m);
  return l.n;
}
template <class M, class S>
void serialize(S& s, const M& m)
{
  s.next(m);
}
template <class M, class S>
void deserialize(S& s, M& m)
{
  s.next(m);
}
}  // namespace serialization
}  // namespace ros
#endif
