// C07: local obstacle maps of laser scans, point clouds and large maps.
#include <algorithm>
#include <cmath>
#include <limits>

#include <nav_msgs/OccupancyGrid.h>
#include <ros/ros.h>
#include <sensor_msgs/LaserScan.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
#include <sim/world.h>
#include <tf2/LinearMath/Transform.h>

#include "pbt.h"

int laserscan_to_map_main(int argc, char** argv);
int pointcloud2_to_map_main(int argc, char** argv);
int largemap_to_map_main(int argc, char** argv);

namespace
{
using nav_msgs::OccupancyGrid;
using pbt::Ctx;
using pbt::Src;
const int64_t MS = 1000000;

struct V3
{
  double x, y, z;
};
tf2::Transform tfOf(double x, double y, double z, double r, double p, double a)
{
  tf2::Quaternion q;
  q.setRPY(r, p, a);
  return tf2::Transform(q, tf2::Vector3(x, y, z));
}
void put(const char* parent, const char* child, int64_t t, const tf2::Transform& f, bool is_static)
{
  const double p[3] = {f.getOrigin().x(), f.getOrigin().y(), f.getOrigin().z()};
  const tf2::Quaternion r = f.getRotation();
  const double q[4] = {r.x(), r.y(), r.z(), r.w()};
  sim::world().setTf(parent, child, t, p, q, is_static);
}
// Clouds in the order they came in.
struct Held
{
  ros::Time stamp;
  std::vector<V3> pts;  // in the global frame
};
struct Store
{
  ros::Duration hold;
  std::vector<Held> all;
  // 0: gone, 1: there, 2: either (the stamps were out of order)
  int state(size_t k) const
  {
    bool expired = false, ordered = true;
    for (size_t m = k + 1; m < all.size(); ++m)
      expired = expired || all[k].stamp + hold < all[m].stamp;
    if (!expired)
      return 1;
    for (size_t m = 1; m < all.size(); ++m)
      ordered = ordered && all[m - 1].stamp <= all[m].stamp;
    return ordered ? 0 : 2;
  }
};

struct Rig
{
  sim::World& w = sim::world();
  std::string name, ns;
  int width;
  double res, hz, hold;
  std::string global, robot;
  std::shared_ptr<std::vector<std::pair<ros::Time, OccupancyGrid>>> out;
  explicit Rig(Src& s, const std::string& n) : name(n)
  {
    w.node = n;
    w.setParam("/neonavigation_compatible", 1);
    width = s.weighted({1, 4, 4}) == 0 ? s.irange(1, 3) : s.irange(4, 20);
    res = s.pick({0.1, 0.05, 0.25, 1.0});
    hz = s.pick({1.0, 10.0, 4.0, 3.0});
    hold = s.pick({1.0, 0.0, 0.3, 2.5});
    global = s.pick({std::string("map"), std::string("odom")});
    robot = s.pick({std::string("base_link"), std::string("robot")});
    p("width", width);
    p("resolution", res);
    p("hz", hz);
    p("accum_duration", hold);
    p("global_frame", global);
    p("robot_frame", robot);
    out = w.listen<OccupancyGrid>("/map_local");
  }
  void p(const char* n, const XmlRpc::XmlRpcValue& v) { w.setParam("/" + name + "/" + n, v); }
  void start(int (*entry)(int, char**))
  {
    w.start([entry]
            { char n[] = "n"; char* a[] = {n, nullptr}; return entry(1, a); });
    w.settle();
    alive();
  }
  void alive() { PBT_CHECK(w.alive() && !w.crashed, "crash", "the node ended: " << w.crash_what); }
};

void centred(const OccupancyGrid& m, int width, double res, const tf2::Vector3& robot, const std::string& frame)
{
  PBT_CHECK(m.header.frame_id == frame, "frame", "map in frame '" << m.header.frame_id << "'");
  PBT_CHECK(static_cast<int>(m.info.width) == width && static_cast<int>(m.info.height) == width && m.data.size() == static_cast<size_t>(width * width), "size", m.info.width << "x" << m.info.height << " with " << m.data.size() << " cells");
  PBT_CHECK(std::abs(m.info.resolution - res) < 1e-6, "resolution", m.info.resolution);
  const double r[2] = {robot.x(), robot.y()}, o[2] = {m.info.origin.position.x, m.info.origin.position.y};
  for (int k = 0; k < 2; ++k)
  {
    const double c = o[k] + width * static_cast<double>(m.info.resolution) * 0.5;
    const double tol = 1e-5 + std::abs(r[k]) * 1e-6;
    PBT_CHECK(std::abs(c - r[k]) < res + tol, "centre", "the map is centred on " << c << ", the robot is at " << r[k]);
    PBT_CHECK(std::abs(c / res - std::round(c / res)) < 1e-3 + std::abs(r[k]) / res * 1e-6, "snap", "the centre " << c << " is not on the grid");
  }
  PBT_CHECK(m.info.origin.orientation.w == 1 && m.info.origin.orientation.z == 0, "rotated", "");
}

void sensed(Ctx& c, bool laser)
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  Rig r(s, laser ? "laserscan_to_map" : "pointcloud2_to_map");
  sim::World& w = r.w;
  double z_min = 0.1, z_max = 1.0;
  const int zs = s.weighted({2, 4, 1});
  if (zs == 1)
  {
    z_min = s.sym(1.0);
    z_max = z_min + s.real(0, 1.5);
  }
  if (zs == 0 && laser)
  {
    z_min = std::numeric_limits<double>::lowest();
    z_max = std::numeric_limits<double>::max();
  }
  if (zs)
  {
    if (zs == 2)
    {
      z_min = -0.5;
      z_max = 0.5;
    }
    r.p("z_min", z_min);
    r.p("z_max", z_max);
  }
  r.start(laser ? laserscan_to_map_main : pointcloud2_to_map_main);
  log << r.name << " width " << r.width << " res " << r.res << " hz " << r.hz << " hold " << r.hold << " z " << z_min << ".." << z_max << "\n";
  const double span = r.width * r.res;
  const tf2::Transform mount = s.flip() ? tfOf(s.sym(0.5), s.sym(0.5), s.real(0, 1), 0, 0, s.sym(3.1)) : tfOf(s.sym(0.5), s.sym(0.5), s.real(0, 1), s.sym(0.7), s.sym(0.7), s.sym(3.1));
  put("body", "sensor", 0, mount, true);
  bool robot_known = !s.chance(1, 4);
  const double far = s.pick({0.0, 3.0, 40.0});
  tf2::Transform pose = tfOf(s.sym(far), s.sym(far), s.sym(1), s.chance(1, 4) ? s.sym(0.3) : 0, s.chance(1, 4) ? s.sym(0.3) : 0, s.sym(3.1));
  Store store[2];
  store[0].hold = ros::Duration(r.hold);
  store[1].hold = ros::Duration(0.0);
  const ros::Duration interval(1.0 / r.hz);
  ros::Time published;
  const auto move = [&]
  {
    put(r.global.c_str(), "body", w.now, pose, false);
    if (robot_known)
      put("body", r.robot.c_str(), w.now, tf2::Transform::getIdentity(), false);
  };
  move();
  const int n = s.irange(1, 14);
  for (int i = 0; i < n; ++i)
  {
    w.advanceNs(s.pick<int64_t>({100, 10, 250, 1000, 3000}) * MS + s.irange(0, 5) * MS);
    if (s.chance(2, 3))
      pose = tfOf(s.chance(1, 5) ? 0 : pose.getOrigin().x() + s.sym(span * 0.5), pose.getOrigin().y() + s.sym(span * 0.5), pose.getOrigin().z() + s.sym(0.1), 0, 0, s.sym(3.1)) * tfOf(0, 0, 0, 0, s.chance(1, 4) ? s.sym(0.2) : 0, 0);
    if (!robot_known && s.chance(1, 3))
      robot_known = true;
    move();
    // the points, in the sensor frame
    std::vector<V3> pts;
    const bool single = !laser && s.chance(1, 4);
    const int np = s.weighted({1, 6}) == 0 ? 0 : s.irange(1, 25);
    const int fault = s.weighted({12, 1, 1});  // of the transform: none, missing, no such frame
    const char* frame = fault == 2 ? "nowhere" : "sensor";
    ros::Time stamp = w.time();
    log << w.now / MS << " robot " << pose.getOrigin().x() << "," << pose.getOrigin().y() << "," << pose.getOrigin().z() << (single ? " single" : "") << (fault ? " no transform" : "") << ":";
    if (laser)
    {
      sensor_msgs::LaserScan m;
      m.header.stamp = stamp;
      m.header.frame_id = frame;
      m.angle_min = s.sym(3.0);
      m.angle_increment = s.pick({0.05, 0.3, -0.1});
      m.angle_max = m.angle_min + m.angle_increment * np;
      m.range_min = 0.1;
      m.range_max = std::max(1.0, span);
      for (int k = 0; k < np; ++k)
      {
        const int what = s.weighted({10, 1, 1, 1, 1});
        float d = what == 0 ? s.real(0.1, std::min<double>(m.range_max, span)) : what == 1 ? std::numeric_limits<float>::infinity() : what == 2 ? std::numeric_limits<float>::quiet_NaN() : what == 3 ? 0.05f : m.range_max + 0.1f;
        m.ranges.push_back(d);
        if (what == 0 && d >= m.range_min && d < m.range_max)
        {
          const double a = m.angle_min + k * static_cast<double>(m.angle_increment);
          pts.push_back({d * std::cos(a), d * std::sin(a), 0});
        }
      }
      log << " " << pts.size() << " of " << np << " ranges from " << m.angle_min << " step " << m.angle_increment << "\n";
      w.tf_blackout = fault == 1;
      w.publish("/scan", m);
    }
    else
    {
      sensor_msgs::PointCloud2 m;
      m.header.stamp = stamp;
      m.header.frame_id = frame;
      sensor_msgs::PointCloud2Modifier mod(m);
      mod.setPointCloud2FieldsByString(1, "xyz");
      std::vector<V3> raw;
      for (int k = 0; k < np; ++k)
      {
        const int what = s.weighted({14, 1});
        V3 g;
        if (what == 0)
        {
          // around the robot, in the global frame
          const tf2::Vector3 q(pose.getOrigin().x() + s.sym(span * 0.6), pose.getOrigin().y() + s.sym(span * 0.6), pose.getOrigin().z() + s.sym(1.5));
          const tf2::Vector3 l = (pose * mount).inverse() * q;
          g = {static_cast<float>(l.x()), static_cast<float>(l.y()), static_cast<float>(l.z())};
          pts.push_back(g);
        }
        else
          g = {std::numeric_limits<double>::quiet_NaN(), s.sym(1), 0};
        raw.push_back(g);
      }
      mod.resize(raw.size());
      m.width = raw.size();
      m.height = 1;
      sensor_msgs::PointCloud2Iterator<float> x(m, "x"), y(m, "y"), z(m, "z");
      for (auto& q : raw)
      {
        *x = q.x;
        *y = q.y;
        *z = q.z;
        ++x, ++y, ++z;
      }
      log << " " << pts.size() << " of " << np << " points\n";
      w.tf_blackout = fault == 1;
      w.publish(single ? "/cloud_singleshot" : "/cloud", m);
    }
    const size_t before = r.out->size();
    w.settle();
    if (fault)
      w.advanceNs(600 * MS);
    w.tf_blackout = false;
    r.alive();
    const size_t got = r.out->size() - before;
    if (fault)
    {
      PBT_CHECK(got == 0 || laser, "without-transform", "a map was published without the transform");
      c.label("transform missing");
      if (!got)
        continue;
    }
    else
    {
      Held h;
      h.stamp = stamp;
      for (const V3& q : pts)
      {
        const tf2::Vector3 g = pose * mount * tf2::Vector3(q.x, q.y, q.z);
        h.pts.push_back({g.x(), g.y(), g.z()});
      }
      store[single].all.push_back(h);
      const bool due = !(published + interval > stamp);
      if (due)
        published = stamp;
      PBT_CHECK(got == (due && robot_known ? 1u : 0u), "rate", got << " maps for a scan " << (due ? "due" : "too early") << (robot_known ? "" : " without the robot pose"));
      if (!got)
        continue;
    }
    const OccupancyGrid& m = r.out->back().second;
    const tf2::Vector3 at = pose.getOrigin();
    centred(m, r.width, r.res, at, r.global);
    const double res = m.info.resolution, ox = m.info.origin.position.x, oy = m.info.origin.position.y;
    std::vector<int> may(m.data.size(), 0), must(m.data.size(), 0);
    for (auto& st : store)
      for (size_t k = 0; k < st.all.size(); ++k)
      {
        const int state = st.state(k);
        if (!state)
          continue;
        for (const V3& q : st.all[k].pts)
        {
          const double tol = 1e-5 + 1e-6 * (std::abs(q.x) + std::abs(q.y) + std::abs(q.z));
          const double z = q.z - at.z();
          if (z < z_min - tol || z > z_max + tol)
            continue;
          const bool z_sure = z > z_min + tol && z < z_max - tol;
          const double fx = (q.x - ox) / res, fy = (q.y - oy) / res, e = tol / res;
          const int x0 = std::floor(fx - e), x1 = std::floor(fx + e), y0 = std::floor(fy - e), y1 = std::floor(fy + e);
          for (int y = y0; y <= y1; ++y)
            for (int x = x0; x <= x1; ++x)
              if (x >= 0 && y >= 0 && x < r.width && y < r.width)
              {
                may[x + y * r.width] = 1;
                if (z_sure && state == 1 && x0 == x1 && y0 == y1)
                  must[x + y * r.width] = 1;
              }
        }
      }
    int occ = 0;
    for (size_t k = 0; k < m.data.size(); ++k)
    {
      const int v = m.data[k];
      PBT_CHECK(v == 0 || v == 100, "value", "cell value " << v);
      PBT_CHECK(v == 0 || may[k], "phantom", "cell " << k % r.width << "," << k / r.width << " is occupied without a point in it");
      PBT_CHECK(v == 100 || !must[k], "missed", "cell " << k % r.width << "," << k / r.width << " is free though a point is in it");
      occ += v == 100;
    }
    if (occ)
    {
      c.nontrivial();
      c.label("obstacles shown");
    }
  }
}
PBT_FACET(laser, 1, "scans from level and tilted mountings with invalid ranges, robot motion, publishing and holding periods, missing transforms; non-trivial: a map with obstacles")
{
  sensed(c, true);
}
PBT_FACET(cloud, 1, "held and single-shot clouds with invalid points, robot motion, publishing and holding periods, missing transforms; non-trivial: a map with obstacles")
{
  sensed(c, false);
}

PBT_FACET(cut, 1, "large maps of all values and origins, robots inside, at the border and outside, window options, missing transforms; non-trivial: a window with free and occupied cells")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  Rig r(s, "largemap_to_map");
  sim::World& w = r.w;
  const bool round = s.chance(1, 3), occlusion = s.chance(1, 3), ring = s.chance(1, 4);
  r.p("round_local_map", round);
  r.p("simulate_occlusion", occlusion);
  r.p("simulate_surrounded", ring);
  r.start(largemap_to_map_main);
  log << "width " << r.width << " hz " << r.hz << (round ? " round" : "") << (occlusion ? " occlusion" : "") << (ring ? " surrounded" : "") << "\n";
  OccupancyGrid big;
  tf2::Transform pose;
  bool has_map = false, has_pose = false;
  const int n = s.irange(2, 7);
  for (int i = 0; i < n; ++i)
  {
    if (i == 0 || s.chance(1, 3))
    {
      big = OccupancyGrid();
      big.header.frame_id = s.pick({std::string("map"), std::string("floor")});
      big.info.resolution = r.res;
      big.info.width = s.irange(1, 30);
      big.info.height = s.irange(1, 30);
      big.info.origin.orientation.w = 1;
      const bool aligned = s.flip();
      big.info.origin.position.x = aligned ? s.irange(-30, 30) * r.res : s.sym(30 * r.res);
      big.info.origin.position.y = aligned ? s.irange(-30, 30) * r.res : s.sym(30 * r.res);
      const int dense = s.irange(1, 30);
      for (size_t k = 0; k < big.info.width * big.info.height; ++k)
        big.data.push_back(s.chance(dense, 100) ? 100 : s.weighted({8, 1, 1}) == 0 ? 0 : s.pick({-1, 50, 99, 1}));
      w.publish("/map", big);
      w.settle();
      has_map = true;
      log << w.now / MS << " map " << big.info.width << "x" << big.info.height << " at " << big.info.origin.position.x << "," << big.info.origin.position.y << "\n";
    }
    if (i == 0 ? s.chance(4, 5) : s.chance(2, 3))
    {
      const double wx = big.info.width * r.res, wy = big.info.height * r.res;
      pose = tfOf(big.info.origin.position.x + s.real(-0.3, 1.3) * wx, big.info.origin.position.y + s.real(-0.3, 1.3) * wy, s.sym(1), 0, 0, s.sym(3));
      has_pose = true;
      log << w.now / MS << " robot " << pose.getOrigin().x() << " " << pose.getOrigin().y() << "\n";
    }
    if (has_pose)
    {
      put("map", r.robot.c_str(), w.now, pose, false);
      put("map", "floor", 0, tf2::Transform::getIdentity(), true);
    }
    const bool lost = has_pose && s.chance(1, 6);
    w.tf_blackout = lost;
    r.out->clear();
    const double dt = s.pick({0.3, 1.1, 2.1});
    w.advance(dt);
    w.tf_blackout = false;
    r.alive();
    if (lost || !has_pose)
    {
      PBT_CHECK(r.out->empty(), "without-transform", "a map was published without the robot pose");
      c.label("transform missing");
      continue;
    }
    const double k = dt * r.hz;
    PBT_CHECK(r.out->size() <= std::floor(k) + 1 && r.out->size() + 1 >= std::floor(k), "rate", r.out->size() << " maps in " << dt << " s at " << r.hz << " Hz");
    for (auto& o : *r.out)
    {
      const OccupancyGrid& m = o.second;
      centred(m, r.width, r.res, pose.getOrigin(), big.header.frame_id);
      PBT_CHECK(m.header.stamp == o.first, "stamp", m.header.stamp << " instead of " << o.first);
      const double sx = (m.info.origin.position.x - big.info.origin.position.x) / r.res, sy = (m.info.origin.position.y - big.info.origin.position.y) / r.res;
      if (std::abs(sx - std::floor(sx) - 0.5) < 2e-3 || std::abs(sy - std::floor(sy) - 0.5) < 2e-3)
        continue;
      const int gx = std::lround(sx), gy = std::lround(sy), W = r.width;
      const double half = W / 2.0;
      // before occlusion: the set of values a cell may have
      std::vector<std::vector<int>> raw(W * W);
      int free_cells = 0, occ = 0;
      for (int y = 0; y < W; ++y)
        for (int x = 0; x < W; ++x)
        {
          auto& v = raw[x + y * W];
          const int bx = x + gx, by = y + gy;
          const int here = bx < 0 || by < 0 || bx >= static_cast<int>(big.info.width) || by >= static_cast<int>(big.info.height) ? -1 : big.data[bx + by * big.info.width];
          const double d = std::hypot(x + 0.5 - half, y + 0.5 - half), e = 0.72;
          bool normal = true;
          if (ring && d <= half + e && d >= half - 2 - e)
          {
            v.push_back(100);
            normal = !(d <= half - e && d >= half - 2 + e);
          }
          if (normal && round && d > half - e)
          {
            v.push_back(-1);
            normal = d <= half + e;
          }
          if (normal)
            v.push_back(here);
        }
      for (int y = 0; y < W; ++y)
        for (int x = 0; x < W; ++x)
        {
          const int v = m.data[x + y * W];
          free_cells += v == 0;
          occ += v == 100;
          const auto& can = raw[x + y * W];
          const bool plain = std::find(can.begin(), can.end(), v) != can.end();
          if (!occlusion)
          {
            PBT_CHECK(plain, "cell", "cell " << x << "," << y << " is " << v << ", expected " << can[0] << (can.size() > 1 ? " or another" : ""));
            continue;
          }
          PBT_CHECK(plain || v == -1, "cell", "cell " << x << "," << y << " is " << v << ", expected " << can[0] << " or hidden");
          const double cx = x + 0.5 - half, cy = y + 0.5 - half, l = std::hypot(cx, cy);
          if (!plain)
          {
            // something must be in front of it
            bool hidden = false;
            for (int b = 0; b < W && !hidden; ++b)
              for (int a = 0; a < W && !hidden; ++a)
              {
                const auto& q = raw[a + b * W];
                if (std::find(q.begin(), q.end(), 100) == q.end() || (a == x && b == y))
                  continue;
                const double ox = a + 0.5 - half, oy = b + 0.5 - half;
                const double along = (ox * cx + oy * cy) / l, off = std::abs(ox * cy - oy * cx) / l;
                hidden = along > -1 && along < l + 1 && off < 1.6;
              }
            PBT_CHECK(hidden, "hidden", "cell " << x << "," << y << " is unknown though nothing hides it");
            c.label("hidden cell");
          }
          else if (v != -1)
          {
            // nothing visible is right in front of it
            const double tx = x - half, ty = y - half, tl = std::hypot(tx, ty);
            for (int b = 0; b < W; ++b)
              for (int a = 0; a < W; ++a)
              {
                if (m.data[a + b * W] != 100 || (a == x && b == y))
                  continue;
                const double ox = a + 0.5 - half, oy = b + 0.5 - half;
                const double along = (ox * tx + oy * ty) / tl, off = std::abs(ox * ty - oy * tx) / tl;
                PBT_CHECK(!(along > 2 && along < tl - 2 && off < 0.15), "seen-through", "cell " << x << "," << y << " is " << v << " behind the obstacle " << a << "," << b);
              }
          }
        }
      if (free_cells && occ)
        c.nontrivial();
    }
  }
}
}  // namespace
