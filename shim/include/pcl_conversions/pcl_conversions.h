#ifndef SHIM_PCL_CONVERSIONS_H
#define SHIM_PCL_CONVERSIONS_H
#include <pcl/point_cloud.h>
#include <ros/time.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
namespace pcl_conversions
{
inline ros::Time fromPCL(uint64_t us)
{
  ros::Time t;
  t.fromNSec(us * 1000ull);
  return t;
}
inline uint64_t toPCL(const ros::Time& t) { return t.toNSec() / 1000ull; }
inline pcl::PCLHeader toPCL(const std_msgs::Header& h)
{
  pcl::PCLHeader p;
  p.seq = h.seq;
  p.stamp = toPCL(h.stamp);
  p.frame_id = h.frame_id;
  return p;
}
inline std_msgs::Header fromPCL(const pcl::PCLHeader& p)
{
  std_msgs::Header h;
  h.seq = p.seq;
  h.stamp = fromPCL(p.stamp);
  h.frame_id = p.frame_id;
  return h;
}
}  // namespace pcl_conversions
namespace pcl
{
inline void fromROSMsg(const sensor_msgs::PointCloud2& m, PointCloud<PointXYZ>& c)
{
  c.header = pcl_conversions::toPCL(m.header);
  c.points.clear();
  c.width = m.width;
  c.height = m.height;
  c.is_dense = m.is_dense;
  int off[3] = {-1, -1, -1};
  for (const auto& f : m.fields)
    for (int i = 0; i < 3; ++i)
      if (f.name == std::string(1, "xyz"[i]))
        off[i] = f.offset;
  for (uint32_t y = 0; y < m.height; ++y)
    for (uint32_t x = 0; x < m.width; ++x)
    {
      const size_t base = static_cast<size_t>(y) * m.row_step + static_cast<size_t>(x) * m.point_step;
      float v[3] = {0, 0, 0};
      for (int i = 0; i < 3; ++i)
        if (off[i] >= 0)
          memcpy(&v[i], &m.data.at(base + off[i] + 3) - 3, 4);
      c.points.push_back(PointXYZ(v[0], v[1], v[2]));
    }
}
inline void toROSMsg(const PointCloud<PointXYZ>& c, sensor_msgs::PointCloud2& m)
{
  m = sensor_msgs::PointCloud2();
  m.header = pcl_conversions::fromPCL(c.header);
  sensor_msgs::PointCloud2Modifier mod(m);
  mod.setPointCloud2FieldsByString(1, "xyz");
  mod.resize(c.points.size());
  m.is_dense = c.is_dense;
  sensor_msgs::PointCloud2Iterator<float> x(m, "x"), y(m, "y"), z(m, "z");
  for (const auto& p : c.points)
  {
    *x = p.x;
    *y = p.y;
    *z = p.z;
    ++x;
    ++y;
    ++z;
  }
  m.width = c.points.size();
  m.height = 1;
}
}  // namespace pcl
#endif
