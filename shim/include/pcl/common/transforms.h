#ifndef SHIM_PCL_TRANSFORMS_H
#define SHIM_PCL_TRANSFORMS_H
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <pcl/point_cloud.h>
namespace pcl
{
template <class P>
P transformPoint(const P& p, const Eigen::Affine3f& t)
{
  const Eigen::Vector3f v = t * Eigen::Vector3f(p.x, p.y, p.z);
  P r = p;
  r.x = v.x();
  r.y = v.y();
  r.z = v.z();
  return r;
}
template <class P>
void transformPointCloud(const PointCloud<P>& in, PointCloud<P>& out, const Eigen::Affine3f& t)
{
  if (&in != &out)
    out = in;
  for (auto& p : out.points)
    if (out.is_dense || isFinite(p))
      p = transformPoint(p, t);
}
}  // namespace pcl
#endif
