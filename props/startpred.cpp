// P11: what part of the previous path is kept for the next planning.
#include <cmath>
#include <limits>
#include <list>
#include <set>
#include <vector>

#include <costmap_cspace_msgs/MapMetaData3D.h>
#include <planner_cspace/planner_3d/grid_metric_converter.h>
#include <planner_cspace/planner_3d/motion_cache.h>
#include <planner_cspace/planner_3d/motion_primitive_builder.h>
#include <planner_cspace/planner_3d/start_pose_predictor.h>

#include "pbt.h"

namespace pc = planner_cspace;
namespace p3 = planner_cspace::planner_3d;
using Vec = pc::CyclicVecInt<3, 2>;
using Vecf = pc::CyclicVecFloat<3, 2>;
using Grid = pc::GridAstar<3, 2>::Gridmap<char, 0x40>;

struct P
{
  double x, y, yaw;
};
static double yawOf(const geometry_msgs::Quaternion& q) { return 2 * std::atan2(q.z, q.w); }
static double wrap(double a) { return std::remainder(a, 2 * M_PI); }
static int mod(int a, int n) { return ((a % n) + n) % n; }

static geometry_msgs::Pose toPose(const P& p)
{
  geometry_msgs::Pose o;
  o.position.x = p.x;
  o.position.y = p.y;
  o.orientation.z = std::sin(p.yaw / 2);
  o.orientation.w = std::cos(p.yaw / 2);
  return o;
}

struct Case
{
  costmap_cspace_msgs::MapMetaData3D info;
  Grid cm;
  p3::StartPosePredictor::Config cfg;
  nav_msgs::Path path;
  std::vector<P> pts;  // the path with in-place turns reduced to their ends

  // Cells a pose may be in (two or more when it lies on a border between cells).
  std::vector<Vec> cells(const P& p) const
  {
    const double c[3] = {(p.x - info.origin.position.x) / info.linear_resolution, (p.y - info.origin.position.y) / info.linear_resolution, p.yaw / info.angular_resolution + 0.5};
    const double tol = 2e-3;
    std::vector<Vec> r;
    for (int x = std::floor(c[0] - tol); x <= std::floor(c[0] + tol); ++x)
      for (int y = std::floor(c[1] - tol); y <= std::floor(c[1] + tol); ++y)
        for (int a = std::floor(c[2] - tol); a <= std::floor(c[2] + tol); ++a)
          r.push_back(Vec(x, y, mod(a, info.angle)));
    return r;
  }
  bool inside(const Vec& v) const { return v[0] >= 0 && v[1] >= 0 && v[0] < static_cast<int>(info.width) && v[1] < static_cast<int>(info.height); }
  // 1 yes, 0 no, -1 unclear
  int centre(const P& p) const
  {
    const double c[3] = {(p.x - info.origin.position.x) / info.linear_resolution - 0.5, (p.y - info.origin.position.y) / info.linear_resolution - 0.5, p.yaw / info.angular_resolution};
    int r = 1;
    for (double v : c)
    {
      const double e = std::abs(v - std::round(v));
      if (e > 1.2e-3)
        return 0;
      if (e > 0.8e-3)
        r = -1;
    }
    return r;
  }
};

static void drawCase(pbt::Src& s, Case& k)
{
  k.info.width = k.info.height = 24;
  k.info.angle = s.pick({4, 8, 16});
  k.info.linear_resolution = s.pick({1.0, 0.1, 0.5});
  k.info.angular_resolution = 2 * M_PI / k.info.angle;
  k.info.origin.position.x = s.pick({0.0, -5.5, 100.3});
  k.info.origin.position.y = s.pick({0.0, -5.5, 7.7});
  k.info.origin.orientation.w = 1;
  const int angles = k.info.angle;
  k.cfg.prediction_sec_ = s.pick({0.5, 0.0, 2.0, 5.0});
  k.cfg.switch_back_prediction_sec_ = s.pick({2.0, 0.0, 8.0, 20.0});
  k.cfg.dist_stop_ = k.info.linear_resolution * s.pick({0.5, 2.0, 0.1});
  k.cfg.lin_vel_ = s.pick({1.0, 0.3, 3.0});
  k.cfg.ang_vel_ = s.pick({1.0, 0.5, 3.0});
  k.path.header.frame_id = "map";
  p3::CostCoeff cc = p3::CostCoeff();
  cc.min_curve_radius_ = 0.1;
  cc.angle_resolution_aspect_ = 1.0;
  const int range = k.info.angle > 8 ? 3 : 4;
  const auto prims = p3::MotionPrimitiveBuilder::build(k.info, cc, range);
  const int kind = s.weighted({8, 1, 1});
  std::list<Vecf> grid;
  if (kind == 0)
  {
    p3::MotionCache mc;
    pc::BlockMemGridmap<char, 3, 2, 0x20> gm;
    gm.reset(Vec(24, 24, angles));
    mc.reset(k.info.linear_resolution, k.info.angular_resolution, range, gm.getAddressor(), s.pick({0.5, 0.1, 0.25}), 0.1);
    std::list<Vec> way;
    Vec p(s.irange(8, 15), s.irange(8, 15), s.irange(0, angles - 1));
    const int n = s.irange(0, 7);
    const bool back_and_forth = s.flip();
    Vec last(0, 0, 0);
    way.push_back(p);
    for (int i = 0; i < n; ++i)
    {
      Vec d = back_and_forth && i > 0 && s.flip() ? Vec(-last[0], -last[1], 0) : prims[p[2]][s.draw(prims[p[2]].size() - 1)];
      bool ok = false;
      for (const Vec& q : prims[p[2]])
        ok = ok || q == d;
      const Vec nx(p[0] + d[0], p[1] + d[1], mod(p[2] + d[2], angles));
      if (!ok || nx[0] < 3 || nx[1] < 3 || nx[0] > 20 || nx[1] > 20)
        continue;
      last = d;
      p = nx;
      way.push_back(p);
    }
    grid = mc.interpolatePath(way);
  }
  else
  {
    // anything
    const int n = s.irange(0, 8);
    for (int i = 0; i < n; ++i)
    {
      if (!grid.empty() && s.chance(1, 3))
        grid.push_back(Vecf(grid.back()[0], grid.back()[1], static_cast<float>(s.real(0, angles))));
      else if (kind == 1)
        grid.push_back(Vecf(static_cast<float>(s.real(1, 22)), static_cast<float>(s.real(1, 22)), static_cast<float>(s.real(0, angles))));
      else
        grid.push_back(Vecf(static_cast<float>(s.irange(1, 22)), static_cast<float>(s.irange(1, 22)), static_cast<float>(s.irange(0, angles - 1))));
    }
  }
  p3::grid_metric_converter::appendGridPath2MetricPath(k.info, grid, k.path);
  bool turning = false;
  P turn_end{};
  for (const auto& ps : k.path.poses)
  {
    const P q{ps.pose.position.x, ps.pose.position.y, yawOf(ps.pose.orientation)};
    if (k.pts.empty() || std::hypot(q.x - k.pts.back().x, q.y - k.pts.back().y) >= 1e-6)
    {
      if (turning)
        k.pts.push_back(turn_end);
      turning = false;
      k.pts.push_back({q.x, q.y, wrap(q.yaw)});
    }
    else
    {
      turning = true;
      turn_end = {k.pts.back().x, k.pts.back().y, wrap(q.yaw)};
    }
  }
  if (turning)
    k.pts.push_back(turn_end);
  k.cm.reset(Vec(24, 24, angles));
  k.cm.clear(0);
  const int obstacles = s.irange(0, 6);
  for (int i = 0; i < obstacles; ++i)
  {
    Vec v(s.irange(0, 23), s.irange(0, 23), s.irange(0, angles - 1));
    if (!k.pts.empty() && s.flip())
    {
      const Vec q = k.cells(k.pts[s.draw(k.pts.size() - 1)])[0];
      if (k.inside(q))
        v = q;
    }
    k.cm[v] = static_cast<char>(s.chance(1, 4) ? 99 : 100);
  }
}

struct Result
{
  bool ok;
  size_t a, b;
  bool unclear;
};
// The documented answer when the nearest point is pts[a] (a == 0: nothing passed yet).
static Result expectFrom(const Case& k, const P& robot, size_t a)
{
  Result r{false, a, a, false};
  const auto& p = k.pts;
  const size_t n = p.size();
  std::vector<double> eta(n, 0);
  eta[a] = std::max(std::abs(wrap(p[a].yaw - robot.yaw)) / k.cfg.ang_vel_, std::hypot(p[a].x - robot.x, p[a].y - robot.y) / k.cfg.lin_vel_);
  for (size_t i = a + 1; i < n; ++i)
  {
    const double d = std::hypot(p[i].x - p[i - 1].x, p[i].y - p[i - 1].y);
    eta[i] = eta[i - 1] + (d > 1e-6 ? d / k.cfg.lin_vel_ : std::abs(wrap(p[i].yaw - p[i - 1].yaw)) / k.cfg.ang_vel_);
  }
  auto near = [&](double x, double y) { return std::abs(x - y) < 1e-4 * (1 + y); };
  // switch backs: between two moves of opposite direction
  double prev = 0;
  size_t since = 0;
  bool found = false;
  for (size_t i = a + 1; i < n && !found; ++i)
  {
    const double dx = p[i].x - p[i - 1].x, dy = p[i].y - p[i - 1].y;
    const double sq = dx * dx + dy * dy;
    if (std::abs(sq - 1e-6) < 1e-8)
      r.unclear = true;
    if (sq < 1e-6)
    {
      prev = 0;
      continue;
    }
    const double dir = std::cos(std::atan2(dy, dx) - p[i].yaw);
    if (std::abs(dir) < 1e-3)
      r.unclear = true;
    if (prev * dir < 0)
    {
      if (since > 0 && i == since + 1)
        r.unclear = true;  // a single segment between two switch backs
      since = i;
      const size_t at = i - 1;
      const int c = k.centre(p[at]);
      if (c < 0)
        r.unclear = true;
      if (near(eta[at], k.cfg.prediction_sec_) || near(eta[at], k.cfg.switch_back_prediction_sec_))
        r.unclear = true;
      if (c && k.cfg.prediction_sec_ < eta[at] && eta[at] < k.cfg.switch_back_prediction_sec_)
      {
        r.b = at;
        found = true;
      }
    }
    prev = dir;
  }
  for (size_t i = a; i + 1 < n && !found; ++i)
  {
    if (near(eta[i], k.cfg.prediction_sec_))
      r.unclear = true;
    const int c = k.centre(p[i]);
    if (eta[i] > k.cfg.prediction_sec_ && c < 0)
      r.unclear = true;
    if (eta[i] > k.cfg.prediction_sec_ && c)
    {
      r.b = i;
      found = true;
    }
  }
  if (!found)
    r.b = n - 1;
  r.ok = true;
  for (size_t i = a; i <= r.b; ++i)
  {
    int hit = 0, clear = 0;
    for (const Vec& v : k.cells(p[i]))
      if (k.inside(v))
        (k.cm[v] == 100 ? hit : clear)++;
      else
        clear++;
    if (hit && clear)
      r.unclear = true;
    if (hit && !clear)
      r.ok = false;
  }
  return r;
}

PBT_FACET(preserved_path, 1, "previous paths (interpolated walks over primitives with switch backs and turns, arbitrary poses, empty), obstacles on and off the path, robots on, beside and off the path, speeds and prediction times, several questions to one predictor; non-trivial: a part was preserved or refused because of an obstacle")
{
  pbt::Src& s = c.src;
  p3::StartPosePredictor used;
  const int rounds = s.irange(1, 3);
  for (int round = 0; round < rounds; ++round)
  {
    Case k;
    drawCase(s, k);
    bool outside = false;
    for (const P& p : k.pts)
      for (const Vec& v : k.cells(p))
        outside = outside || !k.inside(v);
    if (outside)
      throw pbt::Discard();
    if (round == 0 || s.flip())
      used.setConfig(k.cfg);
    else
      used.setConfig(k.cfg);
    p3::StartPosePredictor fresh;
    fresh.setConfig(k.cfg);
    P robot{5, 5, 0};
    if (!k.pts.empty())
    {
      const size_t i = s.draw(k.pts.size() - 1);
      const P& q = k.pts[i];
      const P& q2 = k.pts[std::min(i + 1, k.pts.size() - 1)];
      const double t = s.real(0, 1), off = k.info.linear_resolution * s.pick({0.0, 0.3, 3.0});
      robot = {q.x + t * (q2.x - q.x) + s.sym(off), q.y + t * (q2.y - q.y) + s.sym(off), q.yaw + s.sym(s.pick({0.0, 0.3, M_PI}))};
    }
    c.describe([&](std::ostream& o) {
      o << "round " << round << " headings " << k.info.angle << " cell " << k.info.linear_resolution << " stop " << k.cfg.dist_stop_ << " prediction " << k.cfg.prediction_sec_ << "/" << k.cfg.switch_back_prediction_sec_ << " vel " << k.cfg.lin_vel_ << "," << k.cfg.ang_vel_ << " robot (" << robot.x << "," << robot.y << "," << robot.yaw << ") path";
      for (const P& p : k.pts)
        o << " (" << p.x << "," << p.y << "," << p.yaw << ")";
      o << "\n";
    });
    Vec g1(-7, -7, -7), g2(-7, -7, -7);
    const bool ok = used.process(toPose(robot), k.cm, k.info, k.path, g1);
    const bool ok2 = fresh.process(toPose(robot), k.cm, k.info, k.path, g2);
    const auto& kept = used.getPreservedPath();
    PBT_CHECK(ok == ok2 && kept == fresh.getPreservedPath() && used.getPreservedPathLength() == fresh.getPreservedPathLength() && (!ok || g1 == g2), "history", "a used predictor answers differently from a fresh one");
    if (!ok)
      PBT_CHECK(kept.poses.empty() && used.getPreservedPathLength() == 0.0, "leftover", kept.poses.size() << " poses kept although nothing may be preserved");
    if (k.pts.empty())
    {
      PBT_CHECK(!ok, "empty-path", "");
      continue;
    }
    // distance and possible nearest points
    const size_t n = k.pts.size();
    std::vector<double> seg(n, HUGE_VAL);
    seg[0] = std::hypot(robot.x - k.pts[0].x, robot.y - k.pts[0].y);
    double best = seg[0];
    for (size_t i = 1; i < n; ++i)
    {
      const P &a = k.pts[i - 1], &b = k.pts[i];
      const double dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy;
      double t = l2 > 0 ? ((robot.x - a.x) * dx + (robot.y - a.y) * dy) / l2 : 0;
      t = std::min(1.0, std::max(0.0, t));
      seg[i] = std::hypot(robot.x - a.x - t * dx, robot.y - a.y - t * dy);
      best = std::min(best, seg[i]);
    }
    if (std::abs(best - k.cfg.dist_stop_) < 1e-4)
      continue;
    if (best > k.cfg.dist_stop_)
    {
      PBT_CHECK(!ok, "too-far", "the robot is " << best << " away from the path, the limit is " << k.cfg.dist_stop_);
      continue;
    }
    std::vector<Result> can;
    bool unclear = false;
    for (size_t i = 0; i < n; ++i)
    {
      if (seg[i] > best + 2e-5)
        continue;
      if (i == 0 && n > 1 && seg[1] > best + 2e-5)
        continue;
      can.push_back(expectFrom(k, robot, n == 1 ? 0 : i));
      unclear = unclear || can.back().unclear;
    }
    if (ok)
    {
      // what is kept is a piece of the previous path, free of collision
      const size_t m = kept.poses.size();
      bool match = false, free_piece = false;
      for (const Result& r0 : can)
      {
        const size_t a = r0.a, b = a + m;
        if (b >= n)
          continue;
        bool same = true;
        for (size_t i = 0; i < m && same; ++i)
          same = std::abs(kept.poses[i].pose.position.x - k.pts[a + i].x) < 1e-5 && std::abs(kept.poses[i].pose.position.y - k.pts[a + i].y) < 1e-5 && std::abs(wrap(yawOf(kept.poses[i].pose.orientation) - k.pts[a + i].yaw)) < 1e-4 && kept.poses[i].header.frame_id == "map";
        bool grid_ok = false;
        for (const Vec& v : k.cells(k.pts[b]))
          grid_ok = grid_ok || v == g1;
        if (!same || !grid_ok)
          continue;
        double len = 0;
        for (size_t i = a + 1; i <= b; ++i)
          len += std::hypot(k.pts[i].x - k.pts[i - 1].x, k.pts[i].y - k.pts[i - 1].y);
        if (std::abs(len - used.getPreservedPathLength()) > 1e-4 * (1 + len))
          continue;
        match = true;
        bool hit = false;
        for (size_t i = a; i <= b; ++i)
        {
          bool all = true;
          for (const Vec& v : k.cells(k.pts[i]))
            all = all && k.cm[v] == 100;
          hit = hit || all;
        }
        free_piece = free_piece || !hit;
      }
      PBT_CHECK(match, "not-a-piece", "the preserved " << m << " poses (length " << used.getPreservedPathLength() << ") and the new start (" << g1[0] << "," << g1[1] << "," << g1[2] << ") are no piece of the previous path from the robot's nearest point");
      PBT_CHECK(free_piece, "collision", "the preserved part touches an occupied cell");
      PBT_CHECK(k.inside(g1) && g1[2] >= 0 && g1[2] < static_cast<int>(k.info.angle), "start-outside", g1[0] << "," << g1[1] << "," << g1[2]);
    }
    if (unclear)
    {
      c.label("too close to a threshold to say");
      continue;
    }
    bool agrees = false;
    std::ostringstream o;
    for (const Result& r : can)
    {
      agrees = agrees || (r.ok == ok && (!ok || r.b - r.a == kept.poses.size()));
      o << (r.ok ? " keep " : " refuse ") << r.a << ".." << r.b;
    }
    PBT_CHECK(agrees, "decision", (ok ? "kept " : "refused ") << kept.poses.size() << " poses, expected" << o.str());
    c.nontrivial(!ok || kept.poses.size() > 0);
    c.labelIf(!ok, "refused because of an obstacle");
    c.labelIf(ok && kept.poses.size() > 3, "preserved more than 3 poses");
  }
}
