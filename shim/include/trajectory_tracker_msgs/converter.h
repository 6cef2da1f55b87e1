#ifndef SHIM_TRAJECTORY_TRACKER_MSGS_CONVERTER_H
#define SHIM_TRAJECTORY_TRACKER_MSGS_CONVERTER_H
#include <nav_msgs/Path.h>
#include <geometry_msgs/Vector3.h>
#include <trajectory_tracker_msgs/PathWithVelocity.h>
namespace trajectory_tracker_msgs
{
inline PathWithVelocity toPathWithVelocity(const nav_msgs::Path& src, const geometry_msgs::Vector3& vel)
{
  PathWithVelocity dest;
  dest.header = src.header;
  for (const auto& p : src.poses)
  {
    PoseStampedWithVelocity pv;
    pv.header = p.header;
    pv.pose = p.pose;
    pv.linear_velocity = vel;
    dest.poses.push_back(pv);
  }
  return dest;
}
inline PathWithVelocity toPathWithVelocity(const nav_msgs::Path& src, const double vel)
{
  geometry_msgs::Vector3 v;
  v.x = vel;
  return toPathWithVelocity(src, v);
}
}  // namespace trajectory_tracker_msgs
#endif
