#ifndef SHIM_LASER_GEOMETRY_H
#define SHIM_LASER_GEOMETRY_H
#include <cmath>
#include <sensor_msgs/LaserScan.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
namespace laser_geometry
{
class LaserProjection
{
public:
  void projectLaser(const sensor_msgs::LaserScan& scan, sensor_msgs::PointCloud2& out, double range_cutoff = -1.0, int = 0)
  {
    out = sensor_msgs::PointCloud2();
    out.header = scan.header;
    out.height = 1;
    const char* names[] = {"x", "y", "z", "intensity", "index"};
    for (int i = 0; i < 5; ++i)
    {
      sensor_msgs::PointField f;
      f.name = names[i];
      f.offset = 4 * i;
      f.datatype = i == 4 ? sensor_msgs::PointField::INT32 : sensor_msgs::PointField::FLOAT32;
      f.count = 1;
      out.fields.push_back(f);
    }
    out.point_step = 20;
    if (range_cutoff < 0)
      range_cutoff = scan.range_max;
    std::vector<std::pair<float, float>> pts;
    std::vector<int> idx;
    for (size_t i = 0; i < scan.ranges.size(); ++i)
    {
      const float r = scan.ranges[i];
      if (r < range_cutoff && r >= scan.range_min)
      {
        const double a = scan.angle_min + static_cast<double>(i) * scan.angle_increment;
        pts.push_back({static_cast<float>(r * std::cos(a)), static_cast<float>(r * std::sin(a))});
        idx.push_back(i);
      }
    }
    out.width = pts.size();
    out.row_step = out.point_step * out.width;
    out.is_dense = false;
    out.data.resize(out.row_step);
    for (size_t k = 0; k < pts.size(); ++k)
    {
      float* p = reinterpret_cast<float*>(&out.data[k * 20]);
      p[0] = pts[k].first;
      p[1] = pts[k].second;
      p[2] = 0;
      p[3] = 0;
      reinterpret_cast<int32_t*>(p)[4] = idx[k];
    }
  }
};
}  // namespace laser_geometry
#endif
