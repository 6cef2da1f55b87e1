#ifndef SHIM_TF2_SENSOR_MSGS_H
#define SHIM_TF2_SENSOR_MSGS_H
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
#include <tf2_geometry_msgs/tf2_geometry_msgs.h>
namespace tf2
{
template <>
inline void doTransform(const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out, const geometry_msgs::TransformStamped& t_in)
{
  out = in;
  out.header = t_in.header;
  const Transform t = shimTf(t_in);
  sensor_msgs::PointCloud2ConstIterator<float> x(in, "x"), y(in, "y"), z(in, "z");
  sensor_msgs::PointCloud2Iterator<float> ox(out, "x"), oy(out, "y"), oz(out, "z");
  for (; x != x.end(); ++x, ++y, ++z, ++ox, ++oy, ++oz)
  {
    const Vector3 p = t * Vector3(*x, *y, *z);
    *ox = static_cast<float>(p.x());
    *oy = static_cast<float>(p.y());
    *oz = static_cast<float>(p.z());
  }
}
}  // namespace tf2
#endif
