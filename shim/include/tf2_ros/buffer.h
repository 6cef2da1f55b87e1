#ifndef SHIM_TF2_ROS_BUFFER_H
#define SHIM_TF2_ROS_BUFFER_H
#include <string>
#include <geometry_msgs/TransformStamped.h>
#include <ros/ros.h>
#include <tf2/exceptions.h>
namespace tf2
{
template <class T>
void doTransform(const T& in, T& out, const geometry_msgs::TransformStamped& t);
class BufferCore
{
public:
  explicit BufferCore(ros::Duration = ros::Duration(10.0)) {}
  virtual ~BufferCore() {}
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& time) const;
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const ros::Time& tt, const std::string& source,
                                                  const ros::Time& st, const std::string& fixed) const;
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& time, std::string* err = nullptr) const;
  bool canTransform(const std::string& target, const ros::Time& tt, const std::string& source, const ros::Time& st,
                    const std::string& fixed, std::string* err = nullptr) const;
  bool setTransform(const geometry_msgs::TransformStamped& t, const std::string& authority, bool is_static = false);
  void clear() {}
};
}  // namespace tf2
namespace tf2_ros
{
class BufferInterface
{
public:
  virtual ~BufferInterface() {}
};
class Buffer : public BufferInterface, public tf2::BufferCore
{
public:
  explicit Buffer(ros::Duration = ros::Duration(10.0), bool = false) {}
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& time,
                                                  const ros::Duration timeout = ros::Duration(0.0)) const;
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const ros::Time& tt, const std::string& source,
                                                  const ros::Time& st, const std::string& fixed,
                                                  const ros::Duration timeout = ros::Duration(0.0)) const;
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& time,
                    const ros::Duration timeout = ros::Duration(0.0), std::string* err = nullptr) const;
  bool canTransform(const std::string& target, const ros::Time& tt, const std::string& source, const ros::Time& st,
                    const std::string& fixed, const ros::Duration timeout = ros::Duration(0.0), std::string* err = nullptr) const;
  template <class T>
  T& transform(const T& in, T& out, const std::string& target, ros::Duration timeout = ros::Duration(0.0)) const
  {
    tf2::doTransform(in, out, lookupTransform(target, in.header.frame_id, in.header.stamp, timeout));
    return out;
  }
  template <class T>
  T transform(const T& in, const std::string& target, ros::Duration timeout = ros::Duration(0.0)) const
  {
    T out;
    return transform(in, out, target, timeout);
  }
};
}  // namespace tf2_ros
#endif
