#ifndef SHIM_TF2_ROS_LISTENER_H
#define SHIM_TF2_ROS_LISTENER_H
#include <std_msgs/Empty.h>
#include <tf2_ros/buffer.h>
namespace tf2_ros
{
class TransformListener
{
public:
  explicit TransformListener(tf2::BufferCore&, bool = true, ros::TransportHints = ros::TransportHints()) {}
  TransformListener(tf2::BufferCore&, const ros::NodeHandle&, bool = true, ros::TransportHints = ros::TransportHints()) {}
};
}  // namespace tf2_ros
#endif
