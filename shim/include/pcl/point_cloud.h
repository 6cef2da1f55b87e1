#ifndef SHIM_PCL_POINT_CLOUD_H
#define SHIM_PCL_POINT_CLOUD_H
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <pcl/point_types.h>
namespace pcl
{
struct PCLHeader
{
  uint32_t seq = 0;
  uint64_t stamp = 0;  // microseconds
  std::string frame_id;
};
template <class T>
class PointCloud
{
public:
  typedef boost::shared_ptr<PointCloud<T>> Ptr;
  typedef boost::shared_ptr<const PointCloud<T>> ConstPtr;
  typedef typename std::vector<T>::iterator iterator;
  typedef typename std::vector<T>::const_iterator const_iterator;
  PCLHeader header;
  std::vector<T> points;
  uint32_t width = 0, height = 0;
  bool is_dense = true;
  PointCloud() {}
  PointCloud(uint32_t w, uint32_t h) : points(w * h), width(w), height(h) {}
  PointCloud& operator+=(const PointCloud& r)
  {
    if (r.header.stamp > header.stamp)
      header.stamp = r.header.stamp;
    points.insert(points.end(), r.points.begin(), r.points.end());
    width = points.size();
    height = 1;
    is_dense = is_dense && r.is_dense;
    return *this;
  }
  iterator begin() { return points.begin(); }
  iterator end() { return points.end(); }
  const_iterator begin() const { return points.begin(); }
  const_iterator end() const { return points.end(); }
  size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  T& operator[](size_t i) { return points[i]; }
  const T& operator[](size_t i) const { return points[i]; }
  T& at(size_t i) { return points.at(i); }
  const T& at(size_t i) const { return points.at(i); }
  void reserve(size_t n) { points.reserve(n); }
  void resize(size_t n)
  {
    points.resize(n);
    width = n;
    height = 1;
  }
  void push_back(const T& p)
  {
    points.push_back(p);
    width = points.size();
    height = 1;
  }
  iterator erase(iterator a, iterator b)
  {
    iterator it = points.erase(a, b);
    width = points.size();
    height = 1;
    return it;
  }
  void clear()
  {
    points.clear();
    width = height = 0;
  }
  Ptr makeShared() const { return Ptr(new PointCloud<T>(*this)); }
};
inline bool isFinite(const PointXYZ& p) { return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z); }
}  // namespace pcl
#endif
