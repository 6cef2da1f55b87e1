#ifndef SHIM_TF2_UTILS_H
#define SHIM_TF2_UTILS_H
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/QuaternionStamped.h>
#include <tf2/LinearMath/Quaternion.h>
#include <tf2/LinearMath/Transform.h>
#include <tf2/transform_datatypes.h>
namespace tf2
{
namespace impl
{
inline double yawOf(double x, double y, double z, double w)
{
  // same singularity handling as tf2/impl/utils.h
  const double sqx = x * x, sqy = y * y, sqz = z * z, sqw = w * w;
  const double sarg = -2 * (x * z - w * y) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999)
    return -2 * std::atan2(y, x);
  if (sarg >= 0.99999)
    return 2 * std::atan2(y, x);
  return std::atan2(2 * (x * y + w * z), sqw + sqx - sqy - sqz);
}
}  // namespace impl
inline double getYaw(const Quaternion& q) { return impl::yawOf(q.x(), q.y(), q.z(), q.w()); }
inline double getYaw(const geometry_msgs::Quaternion& q) { return impl::yawOf(q.x, q.y, q.z, q.w); }
inline double getYaw(const geometry_msgs::QuaternionStamped& q) { return getYaw(q.quaternion); }
inline void getEulerYPR(const Quaternion& q, double& y, double& p, double& r) { Matrix3x3(q).getRPY(r, p, y); }
inline void getEulerYPR(const geometry_msgs::Quaternion& q, double& y, double& p, double& r)
{
  getEulerYPR(Quaternion(q.x, q.y, q.z, q.w), y, p, r);
}
}  // namespace tf2
#endif
