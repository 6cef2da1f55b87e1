#ifndef SHIM_TF2_GEOMETRY_MSGS_H
#define SHIM_TF2_GEOMETRY_MSGS_H
#include <geometry_msgs/Point.h>
#include <geometry_msgs/Point32.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/Pose.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/QuaternionStamped.h>
#include <geometry_msgs/Transform.h>
#include <geometry_msgs/TransformStamped.h>
#include <geometry_msgs/Vector3.h>
#include <geometry_msgs/Vector3Stamped.h>
#include <tf2/LinearMath/Transform.h>
#include <tf2/transform_datatypes.h>
#include <tf2_ros/buffer.h>
namespace tf2
{
inline geometry_msgs::Vector3 toMsg(const Vector3& v)
{
  geometry_msgs::Vector3 m;
  m.x = v.x();
  m.y = v.y();
  m.z = v.z();
  return m;
}
inline void fromMsg(const geometry_msgs::Vector3& m, Vector3& v) { v = Vector3(m.x, m.y, m.z); }
inline geometry_msgs::Point& toMsg(const Vector3& v, geometry_msgs::Point& m)
{
  m.x = v.x();
  m.y = v.y();
  m.z = v.z();
  return m;
}
inline void fromMsg(const geometry_msgs::Point& m, Vector3& v) { v = Vector3(m.x, m.y, m.z); }
inline geometry_msgs::Quaternion toMsg(const Quaternion& q)
{
  geometry_msgs::Quaternion m;
  m.x = q.x();
  m.y = q.y();
  m.z = q.z();
  m.w = q.w();
  return m;
}
inline void fromMsg(const geometry_msgs::Quaternion& m, Quaternion& q) { q = Quaternion(m.x, m.y, m.z, m.w); }
inline geometry_msgs::QuaternionStamped toMsg(const Stamped<Quaternion>& q)
{
  geometry_msgs::QuaternionStamped m;
  m.header.stamp = q.stamp_;
  m.header.frame_id = q.frame_id_;
  m.quaternion = toMsg(static_cast<const Quaternion&>(q));
  return m;
}
inline void fromMsg(const geometry_msgs::QuaternionStamped& m, Stamped<Quaternion>& q)
{
  q.stamp_ = m.header.stamp;
  q.frame_id_ = m.header.frame_id;
  Quaternion t;
  fromMsg(m.quaternion, t);
  q.setData(t);
}
inline geometry_msgs::Transform toMsg(const Transform& t)
{
  geometry_msgs::Transform m;
  m.translation = toMsg(t.getOrigin());
  m.rotation = toMsg(t.getRotation());
  return m;
}
inline void fromMsg(const geometry_msgs::Transform& m, Transform& t)
{
  t.setOrigin(Vector3(m.translation.x, m.translation.y, m.translation.z));
  t.setRotation(Quaternion(m.rotation.x, m.rotation.y, m.rotation.z, m.rotation.w));
}
inline geometry_msgs::Pose& toMsg(const Transform& t, geometry_msgs::Pose& m)
{
  toMsg(t.getOrigin(), m.position);
  m.orientation = toMsg(t.getRotation());
  return m;
}
inline void fromMsg(const geometry_msgs::Pose& m, Transform& t)
{
  t.setOrigin(Vector3(m.position.x, m.position.y, m.position.z));
  t.setRotation(Quaternion(m.orientation.x, m.orientation.y, m.orientation.z, m.orientation.w));
}
inline geometry_msgs::TransformStamped toMsg(const Stamped<Transform>& t)
{
  geometry_msgs::TransformStamped m;
  m.header.stamp = t.stamp_;
  m.header.frame_id = t.frame_id_;
  m.transform = toMsg(static_cast<const Transform&>(t));
  return m;
}
inline void fromMsg(const geometry_msgs::TransformStamped& m, Stamped<Transform>& t)
{
  t.stamp_ = m.header.stamp;
  t.frame_id_ = m.header.frame_id;
  Transform x;
  fromMsg(m.transform, x);
  t.setData(x);
}
inline geometry_msgs::PoseStamped toMsg(const Stamped<Transform>& t, geometry_msgs::PoseStamped& m)
{
  m.header.stamp = t.stamp_;
  m.header.frame_id = t.frame_id_;
  toMsg(static_cast<const Transform&>(t), m.pose);
  return m;
}
inline void fromMsg(const geometry_msgs::PoseStamped& m, Stamped<Transform>& t)
{
  t.stamp_ = m.header.stamp;
  t.frame_id_ = m.header.frame_id;
  Transform x;
  fromMsg(m.pose, x);
  t.setData(x);
}
inline geometry_msgs::PointStamped toMsg(const Stamped<Vector3>& v, geometry_msgs::PointStamped& m)
{
  m.header.stamp = v.stamp_;
  m.header.frame_id = v.frame_id_;
  toMsg(static_cast<const Vector3&>(v), m.point);
  return m;
}
inline void fromMsg(const geometry_msgs::PointStamped& m, Stamped<Vector3>& v)
{
  v.stamp_ = m.header.stamp;
  v.frame_id_ = m.header.frame_id;
  v.setData(Vector3(m.point.x, m.point.y, m.point.z));
}
inline Transform shimTf(const geometry_msgs::TransformStamped& t)
{
  Transform x;
  fromMsg(t.transform, x);
  return x;
}
template <>
inline void doTransform(const geometry_msgs::Point& in, geometry_msgs::Point& out, const geometry_msgs::TransformStamped& t)
{
  toMsg(shimTf(t) * Vector3(in.x, in.y, in.z), out);
}
template <>
inline void doTransform(const geometry_msgs::PointStamped& in, geometry_msgs::PointStamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.point, out.point, t);
  out.header.stamp = t.header.stamp;
  out.header.frame_id = t.header.frame_id;
}
template <>
inline void doTransform(const geometry_msgs::Vector3& in, geometry_msgs::Vector3& out, const geometry_msgs::TransformStamped& t)
{
  out = toMsg(shimTf(t).getBasis() * Vector3(in.x, in.y, in.z));
}
template <>
inline void doTransform(const geometry_msgs::Vector3Stamped& in, geometry_msgs::Vector3Stamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.vector, out.vector, t);
  out.header.stamp = t.header.stamp;
  out.header.frame_id = t.header.frame_id;
}
template <>
inline void doTransform(const geometry_msgs::Quaternion& in, geometry_msgs::Quaternion& out, const geometry_msgs::TransformStamped& t)
{
  Quaternion q = Quaternion(t.transform.rotation.x, t.transform.rotation.y, t.transform.rotation.z, t.transform.rotation.w) *
                 Quaternion(in.x, in.y, in.z, in.w);
  out = toMsg(q);
}
template <>
inline void doTransform(const geometry_msgs::QuaternionStamped& in, geometry_msgs::QuaternionStamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.quaternion, out.quaternion, t);
  out.header.stamp = t.header.stamp;
  out.header.frame_id = t.header.frame_id;
}
template <>
inline void doTransform(const geometry_msgs::Pose& in, geometry_msgs::Pose& out, const geometry_msgs::TransformStamped& t)
{
  Transform v;
  fromMsg(in, v);
  toMsg(shimTf(t) * v, out);
}
template <>
inline void doTransform(const geometry_msgs::PoseStamped& in, geometry_msgs::PoseStamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.pose, out.pose, t);
  out.header.stamp = t.header.stamp;
  out.header.frame_id = t.header.frame_id;
}
boost::array<double, 36> shimCovariance(const boost::array<double, 36>& cov, const Transform& t);
template <>
inline void doTransform(const geometry_msgs::PoseWithCovarianceStamped& in, geometry_msgs::PoseWithCovarianceStamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.pose.pose, out.pose.pose, t);
  out.pose.covariance = shimCovariance(in.pose.covariance, shimTf(t));
  out.header.stamp = t.header.stamp;
  out.header.frame_id = t.header.frame_id;
}
template <>
inline void doTransform(const geometry_msgs::TransformStamped& in, geometry_msgs::TransformStamped& out, const geometry_msgs::TransformStamped& t)
{
  Transform v;
  fromMsg(in.transform, v);
  out.transform = toMsg(shimTf(t) * v);
  out.child_frame_id = in.child_frame_id;
  out.header.stamp = t.header.stamp;
  out.header.frame_id = t.header.frame_id;
}
template <class A, class B>
void convert(const A& a, B& b)
{
  fromMsg(a, b);
}
}  // namespace tf2
#endif
