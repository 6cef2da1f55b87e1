#ifndef SHIM_PCL_VOXEL_GRID_H
#define SHIM_PCL_VOXEL_GRID_H
#include <array>
#include <map>
#include <limits>
#include <pcl/point_cloud.h>
namespace pcl
{
// One centroid per occupied voxel.
template <class P>
class VoxelGrid
{
public:
  void setInputCloud(const typename PointCloud<P>::ConstPtr& c) { in_ = c; }
  void setLeafSize(float x, float y, float z)
  {
    l_[0] = x;
    l_[1] = y;
    l_[2] = z;
  }
  void filter(PointCloud<P>& out)
  {
    PointCloud<P> r;
    r.header = in_->header;
    if (in_->points.empty())
    {
      out = r;
      return;
    }
    float lo[3], hi[3];
    for (int i = 0; i < 3; ++i)
    {
      lo[i] = std::numeric_limits<float>::max();
      hi[i] = -lo[i];
    }
    for (const auto& p : in_->points)
    {
      if (!isFinite(p))
        continue;
      const float v[3] = {p.x, p.y, p.z};
      for (int i = 0; i < 3; ++i)
      {
        lo[i] = std::min(lo[i], v[i]);
        hi[i] = std::max(hi[i], v[i]);
      }
    }
    double cells = 1;
    for (int i = 0; i < 3; ++i)
      cells *= std::floor((hi[i] - lo[i]) / l_[i]) + 1;
    if (!(cells <= static_cast<double>(std::numeric_limits<int32_t>::max())))
    {
      out = *in_;  // leaf size too small: integer indices would overflow
      return;
    }
    std::map<std::array<int, 3>, std::pair<std::array<double, 3>, int>> vox;
    for (const auto& p : in_->points)
    {
      if (!isFinite(p))
        continue;
      const std::array<int, 3> k = {{static_cast<int>(std::floor(p.z / l_[2])), static_cast<int>(std::floor(p.y / l_[1])), static_cast<int>(std::floor(p.x / l_[0]))}};
      auto& e = vox[k];
      e.first[0] += p.x;
      e.first[1] += p.y;
      e.first[2] += p.z;
      ++e.second;
    }
    for (const auto& e : vox)
    {
      P p;
      p.x = e.second.first[0] / e.second.second;
      p.y = e.second.first[1] / e.second.second;
      p.z = e.second.first[2] / e.second.second;
      r.push_back(p);
    }
    out = r;
  }

private:
  typename PointCloud<P>::ConstPtr in_;
  float l_[3] = {0, 0, 0};
};
}  // namespace pcl
#endif
