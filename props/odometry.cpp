// O02: projected transforms; O03: odometry corrected with the IMU.
#include <algorithm>
#include <cmath>
#include <limits>

#include <Eigen/Core>
#include <Eigen/Geometry>

#include <nav_msgs/Odometry.h>
#include <ros/ros.h>
#include <sensor_msgs/Imu.h>
#include <sim/world.h>
#include <std_msgs/Float32.h>
#include <tf2/LinearMath/Transform.h>
#include <tf2_ros/transform_broadcaster.h>

#include <track_odometry/tf_projection.h>

#include "pbt.h"

int track_odometry_main(int argc, char** argv);
int tf_projection_node_main(int argc, char** argv);

namespace
{
using Eigen::Quaterniond;
using Eigen::Vector3d;
using nav_msgs::Odometry;
using pbt::Ctx;
using pbt::Src;
const int64_t MS = 1000000;

struct Rigid
{
  Quaterniond q = Quaterniond::Identity();
  Vector3d p = Vector3d::Zero();
  Rigid operator*(const Rigid& b) const { return {q * b.q, p + q * b.p}; }
  Rigid inverse() const { return {q.conjugate(), -(q.conjugate() * p)}; }
};
Quaterniond rpy(double r, double p, double y)
{
  return Eigen::AngleAxisd(y, Vector3d::UnitZ()) * Eigen::AngleAxisd(p, Vector3d::UnitY()) * Eigen::AngleAxisd(r, Vector3d::UnitX());
}
double yawOf(const Quaterniond& q)
{
  const Vector3d x = q * Vector3d::UnitX();
  return std::atan2(x.y(), x.x());
}
double steep(const Quaterniond& q) { return std::abs((q * Vector3d::UnitX()).z()); }
double apart(const Quaterniond& a, const Quaterniond& b)
{
  const Eigen::Matrix3d d = a.toRotationMatrix() - b.toRotationMatrix();
  return d.cwiseAbs().maxCoeff();
}
Rigid randomPose(Src& s, double reach)
{
  Rigid r;
  r.p = Vector3d(s.sym(reach), s.sym(reach), s.sym(reach));
  const int kind = s.weighted({1, 2, 3});
  r.q = kind == 0 ? Quaterniond::Identity() : kind == 1 ? rpy(0, 0, s.sym(3.14)) : rpy(s.sym(3.1), s.sym(1.4), s.sym(3.14));
  return r;
}
Rigid fromMsg(const geometry_msgs::Transform& t)
{
  return {Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z), Vector3d(t.translation.x, t.translation.y, t.translation.z)};
}
void put(const std::string& parent, const std::string& child, int64_t t, const Rigid& f, bool is_static)
{
  const double p[3] = {f.p.x(), f.p.y(), f.p.z()}, q[4] = {f.q.x(), f.q.y(), f.q.z(), f.q.w()};
  sim::world().setTf(parent.c_str(), child.c_str(), t, p, q, is_static);
}
void startNode(int (*entry)(int, char**))
{
  sim::World& w = sim::world();
  w.start([entry]
          { char n[] = "n"; char* a[] = {n, nullptr}; return entry(1, a); });
  w.settle();
  PBT_CHECK(w.alive() && !w.crashed, "crash", "the node ended: " << w.crash_what);
}
std::string show(const Rigid& r)
{
  std::ostringstream o;
  o << "[" << r.p.x() << " " << r.p.y() << " " << r.p.z() << " | " << r.q.x() << " " << r.q.y() << " " << r.q.z() << " " << r.q.w() << "]";
  return o.str();
}

PBT_FACET(project, 1, "rigid transforms of any attitude; non-trivial: source off the surface, both transforms rotated")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  const Rigid src = randomPose(s, s.pick({1.0, 100.0})), surf = randomPose(s, s.pick({1.0, 100.0}));
  log << "source " << show(src) << " surface " << show(surf) << "\n";
  const auto tf = [](const Rigid& r)
  { return tf2::Transform(tf2::Quaternion(r.q.x(), r.q.y(), r.q.z(), r.q.w()), tf2::Vector3(r.p.x(), r.p.y(), r.p.z())); };
  const tf2::Transform out = track_odometry::projectTranslation(tf(src), tf(surf));
  const tf2::Quaternion oq = out.getRotation();
  const Rigid got{Quaterniond(oq.w(), oq.x(), oq.y(), oq.z()), Vector3d(out.getOrigin().x(), out.getOrigin().y(), out.getOrigin().z())};
  const Rigid in = surf.inverse() * got;
  const double tol = 1e-9 * (1 + src.p.norm() + surf.p.norm());
  PBT_CHECK(std::abs(in.p.z()) < tol, "surface", "the projection is " << in.p.z() << " off the surface");
  PBT_CHECK(std::abs(in.p.x() - src.p.x()) < tol && std::abs(in.p.y() - src.p.y()) < tol, "vertical", "projected to " << in.p.transpose());
  PBT_CHECK(apart(in.q, src.q) < 1e-7, "rotation", "rotated by " << apart(in.q, src.q));
  if (std::abs(src.p.z()) > 1e-3 && apart(src.q, Quaterniond::Identity()) > 1e-3 && apart(surf.q, Quaterniond::Identity()) > 1e-3)
    c.nontrivial();
}

PBT_FACET(projection, 1, "moving and fixed frames, all posture options and parents, missing and late transforms; non-trivial: a tilted source is projected")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  sim::World& w = sim::world();
  w.node = "tf_projection";
  w.setParam("/neonavigation_compatible", 1);
  const auto param = [&](const char* n, const XmlRpc::XmlRpcValue& v)
  { w.setParam(std::string("/tf_projection/") + n, v); };
  const std::string source = s.pick({std::string("base_link"), std::string("cam")}), surface = s.pick({std::string("map"), std::string("floor")}), child = s.pick({std::string("base_link_projected"), std::string("flat")});
  const int which = s.weighted({2, 2, 1});  // the parent: the surface, a frame above it, the source
  const std::string parent = which == 0 ? surface : which == 1 ? "world" : source;
  const bool old_names = s.chance(1, 4);
  param(old_names ? "base_link_frame" : "source_frame", source);
  param(old_names ? "projection_frame" : "projection_surface_frame", surface);
  param(old_names ? "target_frame" : "parent_frame", parent);
  param(old_names ? "frame" : "projected_frame", child);
  const double hz = s.pick({10.0, 4.0, 33.0}), tol = s.pick({0.1, 0.0, 0.5});
  param("hz", hz);
  param("tf_tolerance", tol);
  const bool flat = s.chance(1, 4), posture = s.chance(1, 2), align = posture && s.flip();
  param("flat", flat);
  param("project_posture", posture);
  param("align_all_posture_to_source", align || (!posture && s.chance(1, 4)));
  const bool src_fixed = s.chance(1, 4), surf_fixed = s.chance(1, 3);
  sim::sentTf().clear();
  log << source << " onto " << surface << " in " << parent << " as " << child << " hz " << hz << " tol " << tol << (flat ? " flat" : "") << (posture ? " posture" : "") << (align ? " align" : "") << (src_fixed ? " fixed source" : "") << (surf_fixed ? " fixed surface" : "") << "\n";
  // what the transforms were at each stamp
  std::map<int64_t, std::pair<Rigid, Rigid>> at;
  Rigid src = randomPose(s, 3), surf = randomPose(s, 3);
  bool present = !s.chance(1, 4);
  startNode(tf_projection_node_main);
  const int n = s.irange(1, 10);
  size_t seen = 0;
  bool was_fine = true;
  for (int i = 0; i < n; ++i)
  {
    if (!present && s.flip())
      present = true;
    if (i && !src_fixed)
      src = src * Rigid{rpy(s.sym(0.2), s.sym(0.2), s.sym(0.5)), Vector3d(s.sym(1), s.sym(1), s.sym(1))};
    if (i && !surf_fixed)
      surf = randomPose(s, 3);
    if (steep(src.q) > 0.97)
      src.q = rpy(0, 0.3, 0);
    const bool lost = s.chance(1, 6);
    if (present)
    {
      put(surface, source, w.now, src, src_fixed);
      put("world", surface, w.now, surf, surf_fixed);
      at[w.now] = {src, surf};
      if (!surf_fixed && !src_fixed && s.chance(1, 3))
      {
        // the surface is known for a later time already
        put("world", surface, w.now + 20 * MS, randomPose(s, 3), false);
        log << "surface moves on\n";
      }
    }
    log << w.now / MS << (present ? "" : " absent") << (lost ? " lost" : "") << " source " << show(src) << " surface " << show(surf) << "\n";
    w.tf_blackout = lost;
    const double dt = s.pick({0.3, 0.05, 1.0});
    w.advance(dt);
    PBT_CHECK(w.alive() && !w.crashed, "crash", w.crash_what);
    const auto& sent = sim::sentTf();
    const size_t got = sent.size() - seen;
    const bool steady = was_fine;
    was_fine = !lost && present;
    if (lost || !present)
      w.advance(0.25);  // until the last attempt has timed out
    w.tf_blackout = false;
    if (steady)
      PBT_CHECK(got <= std::floor(dt * hz + 1e-6) + 1, "rate", got << " transforms in " << dt << " s at " << hz << " Hz");
    if (!present || lost)
      PBT_CHECK(got == 0, "without-transform", got << " transforms without their inputs");
    else if (i == 0)
      PBT_CHECK(got + 1 >= std::floor(dt * hz), "rate", got << " transforms in " << dt << " s at " << hz << " Hz");
    for (; seen < sent.size(); ++seen)
    {
      const auto& m = sent[seen];
      PBT_CHECK(m.msg.header.frame_id == parent && m.msg.child_frame_id == child, "frames", m.msg.header.frame_id << " -> " << m.msg.child_frame_id);
      Rigid in_src = src, in_surf = surf;
      const bool zero = src_fixed;
      PBT_CHECK(m.is_static == zero, "static", "sent as " << (m.is_static ? "static" : "moving"));
      if (zero)
        PBT_CHECK(m.msg.header.stamp.isZero(), "stamp", m.msg.header.stamp);
      else
      {
        const ros::Time t = m.msg.header.stamp - ros::Duration(tol);
        int64_t best = -1;
        for (auto& e : at)
          if (std::llabs(e.first - static_cast<int64_t>(t.toNSec())) <= 2)
            best = e.first;
        PBT_CHECK(best >= 0, "stamp", "stamped " << m.msg.header.stamp << ", not " << tol << " after a transform's");
        PBT_CHECK(best == at.rbegin()->first, "old", "the transform of " << best << " is used at " << m.t);
        in_src = at[best].first;
        in_surf = at[best].second;
      }
      const Rigid base = which == 0 ? Rigid() : which == 1 ? in_surf : in_src.inverse();
      const Rigid got_p = fromMsg(m.msg.transform);
      // what is expected in the surface frame
      Rigid want = in_src;
      const Quaterniond yaw = rpy(0, 0, yawOf(in_src.q));
      if (posture)
      {
        if (align)
          want.p = yaw * (in_src.q.conjugate() * in_src.p);
        want.q = yaw;
      }
      want.p.z() = 0;
      const Rigid in = base.inverse() * got_p;
      const double e = 1e-6 * (1 + want.p.norm() + base.p.norm());
      PBT_CHECK((in.p - want.p).norm() < e, "position", "projected to " << in.p.transpose() << " on the surface instead of " << want.p.transpose());
      if (!flat)
        PBT_CHECK(apart(in.q, want.q) < 1e-6, "rotation", show(in) << " instead of " << show(want));
      else
      {
        const Rigid full = base * want;
        PBT_CHECK(std::abs(got_p.q.x()) < 1e-9 && std::abs(got_p.q.y()) < 1e-9, "flat", "not a yaw only: " << show(got_p));
        if (steep(full.q) < 0.97)
          PBT_CHECK(std::abs(std::remainder(yawOf(got_p.q) - yawOf(full.q), 2 * M_PI)) < 1e-5, "yaw", yawOf(got_p.q) << " instead of " << yawOf(full.q));
      }
      if (apart(in_src.q, yaw) > 1e-3)
        c.nontrivial();
      c.label(which == 0 ? "parent: surface" : which == 1 ? "parent: above" : "parent: source");
    }
  }
}

// ---------------------------------------------------------------- odometry
struct Slip
{
  double x = 0, sigma = 0.1;
};
PBT_FACET(corrected, 3, "histories of odometry and IMU pairs, dropped messages, lost transforms, height resets, slip, all options; non-trivial: three corrected odometries with turning")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  sim::World& w = sim::world();
  w.node = "track_odometry";
  w.setParam("/neonavigation_compatible", 1);
  const auto param = [&](const char* n, const XmlRpc::XmlRpcValue& v)
  { w.setParam(std::string("/track_odometry/") + n, v); };
  const bool kf = s.flip(), negative = s.chance(1, 3), tf = !s.chance(1, 4);
  const double tol = s.pick({0.01, 0.0, 0.2}), s_odom = s.pick({0.005, 0.05, 0.3, 0.0}), s_pred = s.pick({0.5, 0.01, 0.0}), tc = s.pick({1.0, 0.2, 5.0});
  param("use_kf", kf);
  param("enable_negative_slip", negative);
  param("publish_tf", tf);
  param("tf_tolerance", tol);
  param("sigma_odom", s_odom);
  param("sigma_predict", s_pred);
  param("predict_filter_tc", tc);
  double z_tc = -1;
  const int zk = s.weighted({3, 2, 1});
  if (zk == 1)
  {
    z_tc = s.pick({1.0, 0.1, 5.0});
    param("z_filter_timeconst", z_tc);
  }
  else if (zk == 2)
  {
    const double a = s.pick({0.99, 0.9, 1.0, 0.0});
    param("z_filter", a);
    z_tc = a > 0 && a < 1 ? 0.01 / (1 - a) : -1;
  }
  const std::string named = s.pick({std::string(""), std::string("base_link"), std::string("body")});
  if (!named.empty() || s.flip())
    param("base_link_id", named);
  const std::string child = "base_link";
  const Rigid mount = [&]
  { Rigid r; r.p = Vector3d(s.sym(1), s.sym(1), s.sym(1)); r.q = s.flip() ? rpy(s.pick({0.0, M_PI, M_PI / 2}), 0, s.pick({0.0, M_PI / 2, -2.0})) : rpy(s.sym(3), s.sym(1.4), s.sym(3)); return r; }();
  bool mounted = !s.chance(1, 5);
  if (mounted)
  {
    put("base_link", "imu_link", 0, mount, true);
    put("body", "base_link", 0, Rigid(), true);
  }
  sim::sentTf().clear();
  auto out = w.listen<Odometry>("/odom");
  startNode(track_odometry_main);
  log << (kf ? "kf" : "ratio") << (negative ? " negative" : "") << " sigma_odom " << s_odom << " sigma_predict " << s_pred << " tc " << tc << " z " << z_tc << " base '" << named << "' mount " << show(mount) << (mounted ? "" : " unknown") << "\n";

  std::string base = named;
  bool has_odom = false, has_imu = false;
  Odometry raw_prev;
  Vector3d pos;
  Slip slip;
  Vector3d gyro;
  Quaterniond att;
  int outputs = 0, turned = 0;
  // the robot: wheel odometry
  Vector3d wheel(s.sym(10), s.sym(10), s.sym(1));
  Quaterniond heading = rpy(0, 0, s.sym(3));
  double v = s.sym(1), wz = s.sym(1);
  const int n = s.irange(2, 30);
  for (int i = 0; i < n; ++i)
  {
    const double dt = s.weighted({10, 1}) == 0 ? s.pick({0.02, 0.005, 0.05, 0.1}) : s.pick({0.5, 1.5, 4.0});
    w.advanceNs(static_cast<int64_t>(dt * 1e9) + s.irange(0, 3) * MS / 2);
    if (!mounted && s.chance(1, 4))
    {
      mounted = true;
      put("base_link", "imu_link", 0, mount, true);
      put("body", "base_link", 0, Rigid(), true);
    }
    if (s.chance(1, 12))
    {
      std_msgs::Float32 z;
      z.data = s.sym(2);
      w.publish("/reset_odometry_z", z);
      w.settle();
      pos.z() = z.data;
      log << w.now / MS << " height " << z.data << "\n";
    }
    if (s.chance(1, 3))
    {
      v = s.sym(1.5);
      wz = s.weighted({4, 1, 1, 1, 1}) == 0 ? s.sym(2) : s.pick({0.0, s_odom, -s_odom, 3 * s_odom, 1e-9});
      if (s_odom == 0 && std::abs(wz) < 1e-2)
        wz = 0;  // an exact rate of next to nothing makes the slip ill-conditioned
    }
    heading = heading * rpy(0, 0, wz * dt);
    wheel += heading * Vector3d(v * dt, s.chance(1, 8) ? s.sym(0.01) : 0, s.chance(1, 8) ? s.sym(0.01) : 0);
    Odometry o;
    o.header.stamp = w.time();
    o.header.frame_id = "odom";
    o.child_frame_id = child;
    o.pose.pose.position.x = wheel.x();
    o.pose.pose.position.y = wheel.y();
    o.pose.pose.position.z = wheel.z();
    o.pose.pose.orientation.x = heading.x();
    o.pose.pose.orientation.y = heading.y();
    o.pose.pose.orientation.z = heading.z();
    o.pose.pose.orientation.w = heading.w();
    o.twist.twist.linear.x = v;
    o.twist.twist.angular.z = wz;
    o.pose.covariance[0] = i;
    // the body in the world and as the IMU sees it
    const Quaterniond body = s.chance(1, 10) ? Quaterniond::Identity() : rpy(s.sym(0.4), s.sym(0.4), s.sym(3.14));
    const double k = s.pick({1.0, 0.9, 0.5, 1.2, -0.5, 0.0});
    const Vector3d raw_rate(s.sym(0.3), s.sym(0.3), wz * k + (s.chance(1, 5) ? s.sym(0.1) : 0.0));
    // a rate of nothing but rounding noise has no direction
    const Vector3d rate = std::abs(raw_rate.z()) < 1e-9 && wz != 0 ? Vector3d(raw_rate.x(), raw_rate.y(), 1e-6 * (wz > 0 ? 1 : -1)) : raw_rate;
    const Quaterniond mq = mount.q;
    const Quaterniond io = mq.conjugate() * body * mq;
    const Vector3d ir = mq.conjugate() * rate;
    sensor_msgs::Imu u;
    u.header.stamp = o.header.stamp;
    u.header.frame_id = "imu_link";
    u.orientation.x = io.x();
    u.orientation.y = io.y();
    u.orientation.z = io.z();
    u.orientation.w = io.w();
    u.angular_velocity.x = ir.x();
    u.angular_velocity.y = ir.y();
    u.angular_velocity.z = ir.z();
    const int lost = s.weighted({16, 1, 1, 1});  // nothing, the odometry, the IMU, the transform
    w.tf_blackout = lost == 3;
    const bool imu_first = s.flip();
    const size_t before = out->size(), sent_before = sim::sentTf().size();
    if (imu_first && lost != 2)
      w.publish("/imu/data", u);
    if (s.chance(1, 4))
      w.settle();
    if (lost != 1)
      w.publish("/odom_raw", o);
    if (!imu_first && lost != 2)
      w.publish("/imu/data", u);
    w.settle();
    if (lost == 3 || !mounted)
      w.advanceNs(150 * MS);
    w.tf_blackout = false;
    PBT_CHECK(w.alive() && !w.crashed, "crash", w.crash_what);
    const size_t got = out->size() - before;
    log << w.now / MS << " wheel " << wheel.transpose() << " yaw " << yawOf(heading) << " w " << wz << " body " << show({body, rate}) << " lost " << lost << " -> " << got << "\n";
    if (lost == 1 || lost == 2)
    {
      PBT_CHECK(got == 0, "unpaired", got << " odometries from half a pair");
      continue;
    }
    if (!base.empty())
    {
      has_imu = mounted && lost != 3;
      if (has_imu)
      {
        att = body;
        gyro = rate;
      }
    }
    if (!has_odom)
    {
      PBT_CHECK(got == 0, "first", "published from a single odometry");
      raw_prev = o;
      pos = wheel;
      has_odom = true;
      continue;
    }
    if (named.empty())
      base = child;
    if (!has_imu)
    {
      PBT_CHECK(got == 0, "without-imu", "published without the IMU's attitude");
      c.label("no IMU");
      continue;
    }
    PBT_CHECK(got == 1, "dropped", got << " odometries for a pair");
    const Odometry& r = out->back().second;
    const double d = (o.header.stamp - raw_prev.header.stamp).toSec();
    // slip
    double w_imu = gyro.z();
    if (w_imu * wz < 0 && !negative)
      w_imu = wz;
    slip.x -= slip.x * std::min(1.0, d * tc);
    slip.sigma += d * s_pred;
    const double ratio = std::abs(wz) > 3 * s_odom ? w_imu / wz : 1.0;
    if (std::abs(wz) >= s_odom && wz != 0)
    {
      const double z = (wz - w_imu) / (wz * std::abs(wz));
      const double var = wz * wz - s_odom * s_odom;
      const double sd = s_odom * std::abs(2.0 * wz * s_odom / (var * var));
      if (!std::isinf(sd))
      {
          const double var_sum = slip.sigma * slip.sigma + sd * sd;
        const double g = var_sum > 0 ? slip.sigma * slip.sigma / var_sum : 0;
        slip.x += g * (z - slip.x);
        slip.sigma *= 1 - g;
      }
    }
    const Vector3d prev(raw_prev.pose.pose.position.x, raw_prev.pose.pose.position.y, raw_prev.pose.pose.position.z);
    const Vector3d local = heading.conjugate() * (wheel - prev);
    Vector3d want = pos + att * local * (kf ? 1 - slip.x : ratio);
    if (z_tc > 0)
      want.z() *= std::max(0.0, 1 - d / z_tc);
    const Vector3d have(r.pose.pose.position.x, r.pose.pose.position.y, r.pose.pose.position.z);
    PBT_CHECK(have.allFinite(), "finite", "position " << have.transpose());
    const double scale = 1 + want.norm() + local.norm() * (1 + std::abs(slip.x));
    PBT_CHECK((have - want).norm() < 1e-6 * scale, "position", "moved to " << have.transpose() << " instead of " << want.transpose());
    const Rigid att_got{Quaterniond(r.pose.pose.orientation.w, r.pose.pose.orientation.x, r.pose.pose.orientation.y, r.pose.pose.orientation.z), Vector3d::Zero()};
    PBT_CHECK(apart(att_got.q, att) < 1e-6, "attitude", show(att_got) << " instead of " << show({att, Vector3d::Zero()}));
    const Vector3d g(r.twist.twist.angular.x, r.twist.twist.angular.y, r.twist.twist.angular.z);
    PBT_CHECK((g - gyro).norm() < 1e-9, "rate", "angular rate " << g.transpose() << " instead of " << gyro.transpose());
    PBT_CHECK(r.twist.twist.linear.x == v && r.pose.covariance[0] == i, "passed-on", "linear velocity or covariance changed");
    PBT_CHECK(std::abs((r.header.stamp - o.header.stamp).toSec() - tol) < 1e-6, "stamp", r.header.stamp - o.header.stamp);
    PBT_CHECK(r.header.frame_id == "odom" && r.child_frame_id == base, "frames", r.header.frame_id << " " << r.child_frame_id);
    const auto& sent = sim::sentTf();
    PBT_CHECK(sent.size() - sent_before == (tf ? 1u : 0u), "tf", sent.size() - sent_before << " transforms");
    if (tf)
    {
      const auto& m = sent.back().msg;
      const Rigid t = fromMsg(m.transform);
      PBT_CHECK((t.p - have).norm() < 1e-12 && apart(t.q, att_got.q) < 1e-12 && m.header.stamp == r.header.stamp && m.header.frame_id == "odom" && m.child_frame_id == base, "tf", "the transform differs from the odometry");
    }
    pos = have;
    raw_prev = o;
    ++outputs;
    turned += std::abs(wz) > s_odom && std::abs(w_imu - wz) > 1e-3;
  }
  if (outputs >= 3 && turned)
    c.nontrivial();
  if (turned)
    c.label("slip observed");
}

PBT_FACET(imu_only, 1, "IMU histories without odometry; non-trivial: five attitudes published")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  sim::World& w = sim::world();
  w.node = "track_odometry";
  w.setParam("/neonavigation_compatible", 1);
  w.setParam("/track_odometry/without_odom", true);
  const std::string base = s.pick({std::string("base_link"), std::string("body")}), odom = s.pick({std::string("odom"), std::string("world")});
  w.setParam("/track_odometry/base_link_id", base);
  w.setParam("/track_odometry/odom_id", odom);
  if (s.flip())
    w.setParam("/track_odometry/z_filter_timeconst", 1.0);
  Rigid mount;
  mount.q = rpy(s.sym(3), s.sym(1.4), s.sym(3));
  put(base, "imu_link", 0, mount, true);
  sim::sentTf().clear();
  auto out = w.listen<Odometry>("/odom");
  startNode(track_odometry_main);
  bool known = false;
  Quaterniond att;
  Vector3d gyro;
  int total = 0;
  const int n = s.irange(1, 8);
  for (int i = 0; i < n; ++i)
  {
    const bool lost = s.chance(1, 6), send = s.chance(3, 4);
    if (send)
    {
      const Quaterniond body = rpy(s.sym(3), s.sym(1.5), s.sym(3));
      const Vector3d rate(s.sym(1), s.sym(1), s.sym(1));
      const Quaterniond io = mount.q.conjugate() * body * mount.q;
      const Vector3d ir = mount.q.conjugate() * rate;
      sensor_msgs::Imu u;
      u.header.stamp = w.time();
      u.header.frame_id = "imu_link";
      u.orientation.x = io.x();
      u.orientation.y = io.y();
      u.orientation.z = io.z();
      u.orientation.w = io.w();
      u.angular_velocity.x = ir.x();
      u.angular_velocity.y = ir.y();
      u.angular_velocity.z = ir.z();
      w.tf_blackout = lost;
      w.publish("/imu/data", u);
      w.settle();
      if (lost)
        w.advanceNs(150 * MS);
      w.tf_blackout = false;
      known = !lost;
      att = body;
      gyro = rate;
      log << w.now / MS << " body " << show({body, rate}) << (lost ? " lost" : "") << "\n";
    }
    out->clear();
    const double dt = s.pick({0.1, 0.05, 0.5});
    w.advance(dt);
    PBT_CHECK(w.alive() && !w.crashed, "crash", w.crash_what);
    const int got = out->size();
    if (!known)
    {
      PBT_CHECK(got == 0, "without-imu", got << " odometries without an attitude");
      continue;
    }
    PBT_CHECK(got <= dt * 50 + 1.01 && got + 2.01 >= dt * 50, "rate", got << " odometries in " << dt << " s");
    for (auto& e : *out)
    {
      const Odometry& r = e.second;
      const Vector3d p(r.pose.pose.position.x, r.pose.pose.position.y, r.pose.pose.position.z), g(r.twist.twist.angular.x, r.twist.twist.angular.y, r.twist.twist.angular.z);
      PBT_CHECK(p.norm() == 0, "position", "moved to " << p.transpose());
      PBT_CHECK((g - gyro).norm() < 1e-9, "rate", "");
      const Quaterniond q(r.pose.pose.orientation.w, r.pose.pose.orientation.x, r.pose.pose.orientation.y, r.pose.pose.orientation.z);
      PBT_CHECK(apart(q, att) < 1e-6, "attitude", show({q, p}) << " instead of " << show({att, p}));
      PBT_CHECK(r.header.frame_id == odom && r.child_frame_id == base, "frames", r.header.frame_id << " " << r.child_frame_id);
    }
    total += got;
  }
  if (total >= 5)
    c.nontrivial();
}
}  // namespace
