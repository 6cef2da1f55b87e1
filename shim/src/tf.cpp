#include <cstring>
#include <map>
#include <vector>
#include <sim/world.h>
#include <tf2_geometry_msgs/tf2_geometry_msgs.h>
#include <tf2_ros/transform_broadcaster.h>

namespace sim
{
std::vector<SentTf>& sentTf()
{
  static std::vector<SentTf> v;
  return v;
}
static std::string strip(const std::string& s) { return !s.empty() && s[0] == '/' ? s.substr(1) : s; }
void sendTf(const geometry_msgs::TransformStamped& t, bool is_static)
{
  sentTf().push_back({world().now, t, is_static});
  const double p[3] = {t.transform.translation.x, t.transform.translation.y, t.transform.translation.z};
  const double q[4] = {t.transform.rotation.x, t.transform.rotation.y, t.transform.rotation.z, t.transform.rotation.w};
  const double n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
  // tf2 refuses these
  if (t.child_frame_id == t.header.frame_id || t.child_frame_id.empty() || t.header.frame_id.empty() || !(std::abs(n - 1.0) < 1e-3) ||
      !(std::isfinite(p[0]) && std::isfinite(p[1]) && std::isfinite(p[2])))
    return;
  world().setTf(strip(t.header.frame_id), strip(t.child_frame_id), t.header.stamp.toNSec(), p, q, is_static);
}
// Chain from `frame` to the root.
static std::vector<std::string> chain(const std::string& frame)
{
  std::vector<std::string> r(1, frame);
  while (r.size() < 1000)
  {
    auto it = world().tf.find(r.back());
    if (it == world().tf.end())
      break;
    r.push_back(it->second.parent);
  }
  if (r.size() >= 1000)
    throw tf2::LookupException("The tf tree is invalid because it contains a loop.");
  return r;
}
static bool known(const std::string& f)
{
  if (world().tf.count(f))
    return true;
  for (auto& e : world().tf)
    if (e.second.parent == f)
      return true;
  return false;
}
static tf2::Transform edge(const std::string& child, int64_t t)
{
  const TfEdge& e = world().tf[child];
  auto mk = [](const TfSample& s)
  { return tf2::Transform(tf2::Quaternion(s.q[0], s.q[1], s.q[2], s.q[3]), tf2::Vector3(s.p[0], s.p[1], s.p[2])); };
  if (e.is_static)
    return mk(e.data.front());
  if (e.data.size() == 1)
  {
    if (e.data.front().t != t)
      throw tf2::ExtrapolationException("Lookup would require extrapolation at time, but only one time is in the buffer");
    return mk(e.data.front());
  }
  if (t > e.data.back().t)
    throw tf2::ExtrapolationException("Lookup would require extrapolation into the future");
  if (t < e.data.front().t)
    throw tf2::ExtrapolationException("Lookup would require extrapolation into the past");
  size_t i = 0;
  while (e.data[i].t < t)
    ++i;
  if (e.data[i].t == t)
    return mk(e.data[i]);
  const TfSample &a = e.data[i - 1], &b = e.data[i];
  const double r = static_cast<double>(t - a.t) / static_cast<double>(b.t - a.t);
  const tf2::Vector3 p = tf2::Vector3(a.p[0], a.p[1], a.p[2]).lerp(tf2::Vector3(b.p[0], b.p[1], b.p[2]), r);
  const tf2::Quaternion q = tf2::Quaternion(a.q[0], a.q[1], a.q[2], a.q[3]).slerp(tf2::Quaternion(b.q[0], b.q[1], b.q[2], b.q[3]), r);
  return tf2::Transform(q, p);
}
static tf2::Transform lookup(const std::string& target_in, const std::string& source_in, const ros::Time& time, ros::Time& used)
{
  if (world().tf_blackout)
    throw tf2::LookupException("transforms are not available");
  const std::string target = strip(target_in), source = strip(source_in);
  if (target.empty() || source.empty())
    throw tf2::InvalidArgumentException("Invalid argument passed to lookupTransform: frame_id cannot be empty");
  for (const std::string& f : {target, source})
    if (!known(f))
      throw tf2::LookupException("\"" + f + "\" passed to lookupTransform does not exist.");
  used = time;
  if (target == source)
  {
    if (time.isZero())
    {
      auto it = world().tf.find(source);
      if (it != world().tf.end() && !it->second.is_static)
        used.fromNSec(it->second.data.back().t);
    }
    return tf2::Transform::getIdentity();
  }
  auto cs = chain(source), ct = chain(target);
  // lowest common ancestor
  size_t i = cs.size(), j = ct.size();
  if (cs.back() != ct.back())
    throw tf2::ConnectivityException("Could not find a connection between '" + target + "' and '" + source + "' because they are not part of the same tree.");
  while (i > 0 && j > 0 && cs[i - 1] == ct[j - 1])
    --i, --j;
  // cs[0..i-1] edges lead up to the common ancestor
  int64_t t = time.toNSec();
  if (time.isZero())
  {
    int64_t common = std::numeric_limits<int64_t>::max();
    for (size_t k = 0; k < i; ++k)
      if (!world().tf[cs[k]].is_static)
        common = std::min(common, world().tf[cs[k]].data.back().t);
    for (size_t k = 0; k < j; ++k)
      if (!world().tf[ct[k]].is_static)
        common = std::min(common, world().tf[ct[k]].data.back().t);
    t = common == std::numeric_limits<int64_t>::max() ? 0 : common;
    used.fromNSec(t);
  }
  tf2::Transform s = tf2::Transform::getIdentity(), g = tf2::Transform::getIdentity();
  for (size_t k = 0; k < i; ++k)
    s = edge(cs[k], t) * s;
  for (size_t k = 0; k < j; ++k)
    g = edge(ct[k], t) * g;
  return g.inverse() * s;
}
}  // namespace sim

namespace tf2
{
boost::array<double, 36> shimCovariance(const boost::array<double, 36>& cov, const Transform& t)
{
  const Matrix3x3 R = t.getBasis(), Rt = R.transpose();
  auto block = [&](int r, int c) { return Matrix3x3(cov[r * 6 + c], cov[r * 6 + c + 1], cov[r * 6 + c + 2], cov[(r + 1) * 6 + c], cov[(r + 1) * 6 + c + 1], cov[(r + 1) * 6 + c + 2], cov[(r + 2) * 6 + c], cov[(r + 2) * 6 + c + 1], cov[(r + 2) * 6 + c + 2]); };
  boost::array<double, 36> out;
  for (int r = 0; r < 6; r += 3)
    for (int c = 0; c < 6; c += 3)
    {
      const Matrix3x3 m = R * block(r, c) * Rt;
      for (int a = 0; a < 3; ++a)
        for (int b = 0; b < 3; ++b)
          out[(r + a) * 6 + c + b] = m[a][b];
    }
  return out;
}
static geometry_msgs::TransformStamped make(const Transform& t, const ros::Time& stamp, const std::string& target, const std::string& source)
{
  geometry_msgs::TransformStamped m;
  m.header.stamp = stamp;
  m.header.frame_id = target;
  m.child_frame_id = source;
  m.transform = toMsg(t);
  return m;
}
geometry_msgs::TransformStamped BufferCore::lookupTransform(const std::string& target, const std::string& source, const ros::Time& time) const
{
  ros::Time used;
  const Transform t = sim::lookup(target, source, time, used);
  return make(t, used, target, source);
}
geometry_msgs::TransformStamped BufferCore::lookupTransform(const std::string& target, const ros::Time& tt, const std::string& source,
                                                            const ros::Time& st, const std::string& fixed) const
{
  ros::Time u1, u2;
  const Transform a = sim::lookup(fixed, source, st, u1);
  const Transform b = sim::lookup(target, fixed, tt, u2);
  return make(b * a, u2, target, source);
}
bool BufferCore::canTransform(const std::string& target, const std::string& source, const ros::Time& time, std::string* err) const
{
  try
  {
    lookupTransform(target, source, time);
    return true;
  }
  catch (TransformException& e)
  {
    if (err)
      *err = e.what();
    return false;
  }
}
bool BufferCore::canTransform(const std::string& target, const ros::Time& tt, const std::string& source, const ros::Time& st,
                              const std::string& fixed, std::string* err) const
{
  try
  {
    lookupTransform(target, tt, source, st, fixed);
    return true;
  }
  catch (TransformException& e)
  {
    if (err)
      *err = e.what();
    return false;
  }
}
bool BufferCore::setTransform(const geometry_msgs::TransformStamped& t, const std::string&, bool is_static)
{
  sim::sendTf(t, is_static);
  return true;
}
}  // namespace tf2
namespace tf2_ros
{
geometry_msgs::TransformStamped Buffer::lookupTransform(const std::string& target, const std::string& source, const ros::Time& time,
                                                        const ros::Duration timeout) const
{
  canTransform(target, source, time, timeout);
  return tf2::BufferCore::lookupTransform(target, source, time);
}
geometry_msgs::TransformStamped Buffer::lookupTransform(const std::string& target, const ros::Time& tt, const std::string& source,
                                                        const ros::Time& st, const std::string& fixed, const ros::Duration timeout) const
{
  canTransform(target, tt, source, st, fixed, timeout);
  return tf2::BufferCore::lookupTransform(target, tt, source, st, fixed);
}
bool Buffer::canTransform(const std::string& target, const std::string& source, const ros::Time& time, const ros::Duration timeout, std::string* err) const
{
  const ros::Time start = ros::Time::now();
  while (ros::ok() && ros::Time::now() < start + timeout && !tf2::BufferCore::canTransform(target, source, time))
    ros::Duration(0.01).sleep();
  return tf2::BufferCore::canTransform(target, source, time, err);
}
bool Buffer::canTransform(const std::string& target, const ros::Time& tt, const std::string& source, const ros::Time& st,
                          const std::string& fixed, const ros::Duration timeout, std::string* err) const
{
  const ros::Time start = ros::Time::now();
  while (ros::ok() && ros::Time::now() < start + timeout && !tf2::BufferCore::canTransform(target, tt, source, st, fixed))
    ros::Duration(0.01).sleep();
  return tf2::BufferCore::canTransform(target, tt, source, st, fixed, err);
}
}  // namespace tf2_ros
