#ifndef SHIM_TF2_ROS_BROADCASTER_H
#define SHIM_TF2_ROS_BROADCASTER_H
#include <vector>
#include <geometry_msgs/TransformStamped.h>
#include <ros/ros.h>
namespace sim
{
// every transform the node has sent: time of sending, message, static
struct SentTf
{
  int64_t t;
  geometry_msgs::TransformStamped msg;
  bool is_static;
};
std::vector<SentTf>& sentTf();
void sendTf(const geometry_msgs::TransformStamped& t, bool is_static);
}  // namespace sim
namespace tf2_ros
{
class TransformBroadcaster
{
public:
  void sendTransform(const geometry_msgs::TransformStamped& t) { sim::sendTf(t, false); }
  void sendTransform(const std::vector<geometry_msgs::TransformStamped>& ts)
  {
    for (auto& t : ts)
      sendTransform(t);
  }
};
class StaticTransformBroadcaster
{
public:
  void sendTransform(const geometry_msgs::TransformStamped& t) { sim::sendTf(t, true); }
  void sendTransform(const std::vector<geometry_msgs::TransformStamped>& ts)
  {
    for (auto& t : ts)
      sendTransform(t);
  }
};
}  // namespace tf2_ros
#endif
