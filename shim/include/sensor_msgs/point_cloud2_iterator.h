#ifndef SHIM_PC2_ITERATOR_H
#define SHIM_PC2_ITERATOR_H
#include <cstdarg>
#include <stdexcept>
#include <string>
#include <vector>
#include <sensor_msgs/PointCloud2.h>
namespace sensor_msgs
{
inline int shimSizeOf(int t)
{
  switch (t)
  {
    case PointField::INT8: case PointField::UINT8: return 1;
    case PointField::INT16: case PointField::UINT16: return 2;
    case PointField::INT32: case PointField::UINT32: case PointField::FLOAT32: return 4;
    case PointField::FLOAT64: return 8;
  }
  return 0;
}
template <class T, class TT, class Byte, class Cloud>
class PointCloud2IteratorBase
{
public:
  PointCloud2IteratorBase() {}
  PointCloud2IteratorBase(Cloud& c, const std::string& name)
  {
    is_bigendian_ = c.is_bigendian;
    step_ = c.point_step;
    int off = -1;
    for (auto& f : c.fields)
      if (f.name == name)
        off = f.offset;
    if (off < 0)
      throw std::runtime_error("Field " + name + " does not exist");
    // like upstream: the end is computed from width and height, not from the data
    base_ = c.data.data();
    size_ = c.data.size();
    n_ = static_cast<size_t>(c.width) * c.height;
    off_ = off;
  }
  TT& operator*() const
  {
    check(i_, sizeof(T));
    return *reinterpret_cast<TT*>(base_ + i_ * step_ + off_);
  }
  TT& operator[](size_t k) const
  {
    check(i_, (k + 1) * sizeof(T));
    return reinterpret_cast<TT*>(base_ + i_ * step_ + off_)[k];
  }
  PointCloud2IteratorBase& operator++()
  {
    ++i_;
    return *this;
  }
  PointCloud2IteratorBase& operator+=(int n)
  {
    i_ += n;
    return *this;
  }
  PointCloud2IteratorBase operator+(int n) const
  {
    PointCloud2IteratorBase r = *this;
    r += n;
    return r;
  }
  bool operator!=(const PointCloud2IteratorBase& o) const { return i_ != o.i_; }
  PointCloud2IteratorBase end() const
  {
    PointCloud2IteratorBase r = *this;
    r.i_ = n_;
    return r;
  }

private:
  void check(size_t i, size_t bytes) const
  {
    // reading outside the message's data is memory corruption in the real iterator
    if (i * step_ + off_ + bytes > size_)
    {
      fprintf(stderr, "PointCloud2 iterator outside of the data\n");
      abort();
    }
  }
  Byte* base_ = nullptr;
  size_t size_ = 0, n_ = 0, i_ = 0, step_ = 0, off_ = 0;
  bool is_bigendian_ = false;
};
template <class T>
class PointCloud2Iterator : public PointCloud2IteratorBase<T, T, uint8_t, PointCloud2>
{
public:
  PointCloud2Iterator(PointCloud2& c, const std::string& n) : PointCloud2IteratorBase<T, T, uint8_t, PointCloud2>(c, n) {}
};
template <class T>
class PointCloud2ConstIterator : public PointCloud2IteratorBase<T, const T, const uint8_t, const PointCloud2>
{
public:
  PointCloud2ConstIterator(const PointCloud2& c, const std::string& n)
    : PointCloud2IteratorBase<T, const T, const uint8_t, const PointCloud2>(c, n)
  {
  }
};
class PointCloud2Modifier
{
public:
  explicit PointCloud2Modifier(PointCloud2& c) : c_(c) {}
  size_t size() const { return c_.point_step ? c_.data.size() / c_.point_step : 0; }
  void reserve(size_t n) { c_.data.reserve(n * c_.point_step); }
  void resize(size_t n)
  {
    c_.data.resize(n * c_.point_step);
    if (c_.height != 1)
    {
      c_.height = 1;
    }
    c_.width = n;
    c_.row_step = c_.width * c_.point_step;
  }
  void clear()
  {
    c_.data.clear();
    if (c_.height == 1)
      c_.row_step = c_.width = 0;
  }
  void setPointCloud2FieldsByString(int n, ...)
  {
    c_.fields.clear();
    int off = 0;
    va_list ap;
    va_start(ap, n);
    for (int i = 0; i < n; ++i)
    {
      const std::string f(va_arg(ap, char*));
      if (f == "xyz")
      {
        for (const char* k : {"x", "y", "z"})
          off = add(k, 1, PointField::FLOAT32, off);
        off += 4;
      }
    }
    va_end(ap);
    finish(off);
  }
  void setPointCloud2Fields(int n, ...)
  {
    c_.fields.clear();
    int off = 0;
    va_list ap;
    va_start(ap, n);
    for (int i = 0; i < n; ++i)
    {
      const std::string name(va_arg(ap, char*));
      const int count = va_arg(ap, int);
      const int type = va_arg(ap, int);
      off = add(name, count, type, off);
    }
    va_end(ap);
    finish(off);
  }

private:
  int add(const std::string& name, int count, int type, int off)
  {
    PointField f;
    f.name = name;
    f.count = count;
    f.datatype = type;
    f.offset = off;
    c_.fields.push_back(f);
    return off + count * shimSizeOf(type);
  }
  void finish(int off)
  {
    c_.point_step = off;
    c_.row_step = c_.width * off;
    c_.data.resize(c_.height * c_.row_step);
  }
  PointCloud2& c_;
};
}  // namespace sensor_msgs
#endif
