#ifndef SHIM_PCL_KDTREE_FLANN_H
#define SHIM_PCL_KDTREE_FLANN_H
#include <algorithm>
#include <utility>
#include <vector>
#include <pcl/point_cloud.h>
namespace pcl
{
// Exhaustive search with the interface of the tree.
template <class P>
class KdTreeFLANN
{
public:
  void setInputCloud(const typename PointCloud<P>::ConstPtr& c) { in_ = c; }
  int radiusSearch(const P& q, double r, std::vector<int>& idx, std::vector<float>& d2, unsigned int max_nn = 0) const
  {
    std::vector<std::pair<float, int>> f;
    for (size_t i = 0; i < in_->points.size(); ++i)
    {
      const P& p = in_->points[i];
      if (!isFinite(p))
        continue;
      const float d = (p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y) + (p.z - q.z) * (p.z - q.z);
      if (d < static_cast<float>(r * r))
        f.push_back({d, static_cast<int>(i)});
    }
    std::sort(f.begin(), f.end());
    if (max_nn && f.size() > max_nn)
      f.resize(max_nn);
    idx.clear();
    d2.clear();
    for (auto& e : f)
    {
      idx.push_back(e.second);
      d2.push_back(e.first);
    }
    return idx.size();
  }

private:
  typename PointCloud<P>::ConstPtr in_;
};
}  // namespace pcl
#endif
