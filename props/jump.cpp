// P14: localisation jump detection against plain planar arithmetic.
#include <cmath>

#include <planner_cspace/jump_detector.h>
#include <ros/ros.h>
#include <sim/world.h>

#include "pbt.h"

namespace p3 = planner_cspace::planner_3d;

struct P2
{
  double x, y, a;
};
static P2 mul(const P2& p, const P2& q) { return {p.x + std::cos(p.a) * q.x - std::sin(p.a) * q.y, p.y + std::sin(p.a) * q.x + std::cos(p.a) * q.y, p.a + q.a}; }
static P2 inv(const P2& p)
{
  const double c = std::cos(p.a), s = std::sin(p.a);
  return {-c * p.x - s * p.y, s * p.x - c * p.y, -p.a};
}
static void put(const char* parent, const char* child, const P2& p, double z)
{
  const double t[3] = {p.x, p.y, z};
  const double q[4] = {0, 0, std::sin(p.a / 2), std::cos(p.a / 2)};
  sim::world().setTf(parent, child, sim::world().now, t, q, false);
}

PBT_FACET(jump, 1, "histories of odometry motion, small and large corrections of the map frame, missing transforms, frame and threshold changes; non-trivial: both a reported jump and an unreported correction")
{
  pbt::Src& s = c.src;
  sim::resetWorld();
  auto& w = sim::world();
  tf2_ros::Buffer buf;
  p3::JumpDetector det(buf);
  det.setMapFrame("map");
  det.setBaseFrame("odom");
  double pos = s.pick({1.0, 0.1, 0.0}), yaw = s.pick({1.5, 0.1, 3.0});
  det.setThresholds(pos, yaw);
  P2 odom{0, 0, 0}, corr{s.sym(10), s.sym(10), s.sym(M_PI)};
  double z = 0;
  bool have = false, have_tf = false;
  P2 prev_map{}, prev_odom{};
  int jumps = 0, small = 0;
  const int n = s.irange(1, 25);
  c.describe([&](std::ostream& o) { o << "thresholds " << pos << " " << yaw << ";"; });
  for (int k = 0; k < n; ++k)
  {
    w.now += static_cast<int64_t>(s.irange(1, 1000)) * 1000000;
    const int op = s.weighted({6, 3, 3, 1, 1});
    bool blackout = false;
    if (op == 0 || op == 1 || (op == 3 && s.flip()))
      odom = mul(odom, {s.sym(2.0), s.sym(0.5), s.sym(1.0)});
    if (op == 1 || op == 2)
    {
      const double m = s.pick({0.05, 0.5, 5.0});
      const P2 d{s.sym(m), s.sym(m), s.sym(std::min(3.0, m))};
      corr = s.flip() ? mul(corr, d) : mul(d, corr);
      if (s.chance(1, 6))
        corr.a += 2 * M_PI;
    }
    if (op == 3)
      blackout = true;
    if (op == 4)
    {
      pos = s.pick({1.0, 0.1, 0.0, 3.0});
      yaw = s.pick({1.5, 0.1, 3.0});
      det.setThresholds(pos, yaw);
    }
    const bool missing = blackout || (!have_tf && s.chance(1, 4));
    if (!missing)
    {
      put("map", "odom", corr, z);
      put("odom", "base_link", odom, 0);
      have_tf = true;
    }
    // localisation alone may be missing
    const bool half = missing && s.flip();
    if (half)
    {
      put("odom", "base_link", odom, 0);
      if (have_tf)
        det.setMapFrame("nowhere");
    }
    w.tf_blackout = missing && !half;
    const bool got = det.detectJump();
    w.tf_blackout = false;
    det.setMapFrame("map");
    const P2 map = mul(corr, odom);
    std::ostringstream in;
    in << "step " << k << " odom (" << odom.x << "," << odom.y << "," << odom.a << ") map->odom (" << corr.x << "," << corr.y << "," << corr.a << ")";
    c.describe([&](std::ostream& o) { o << " " << in.str() << (half ? " no map" : missing ? " missing" : ""); });
    if (missing)
    {
      PBT_CHECK(!got, "missing", in.str() << ": a jump was reported without transforms");
      continue;
    }
    if (!have)
      PBT_CHECK(!got, "first", in.str() << ": a jump was reported on the first observation");
    else
    {
      // where odometry says the robot is now, seen from where localisation says it is
      const P2 expected = mul(prev_map, mul(inv(prev_odom), odom));
      const P2 diff = mul(inv(map), expected);
      const double dp = std::hypot(diff.x, diff.y), da = std::abs(std::remainder(diff.a, 2 * M_PI));
      const double e = 1e-6 * (1 + std::hypot(map.x, map.y));
      if (std::abs(dp - pos) > e && std::abs(da - yaw) > 1e-6 && da < M_PI - 1e-6)
      {
        const bool want = dp > pos || da > yaw;
        PBT_CHECK(got == want, got ? "false-jump" : "missed-jump", in.str() << ": moved by " << dp << " m, " << da << " rad (thresholds " << pos << ", " << yaw << ")");
        jumps += want;
        small += !want && dp > 1e-3;
      }
    }
    prev_map = map;
    prev_odom = odom;
    have = true;
    if (s.chance(1, 5))
    {
      PBT_CHECK(!det.detectJump(), "reported-twice", in.str());
    }
  }
  c.nontrivial(jumps > 0 && small > 0);
}
