import os as _os
_ns = {}
exec(open(_os.path.join(V, "tools/seeds/b_nodes.py")).read(), _ns)
TR, TR_HEAD, P3, P3_SRC, P_HEAD = (_ns[k] for k in ("TR", "TR_HEAD", "P3", "P3_SRC", "P_HEAD"))
SEEDS = []
SEEDS.append(dict(
    id="T08-feedforward-backward", property="T08",
    needs="driving backward along a curved path",
    breaks="the turning rate of the path is fed forward with the wrong sign, so the robot leaves the path when it drives backward in a curve",
    edits=[(TR, "        float wref = std::abs(v_lim_.get()) * tracking_result.tracking_point_curv;\n", "        float wref = v_lim_.get() * tracking_result.tracking_point_curv;\n")],
    nodes=[TR], demo=TR_HEAD + r"""
int main()
{
  for (int back = 0; back < 2; ++back)
  {
    sim::resetWorld();
    W().setParam("/neonavigation_compatible", 1);
    W().setParam("/trajectory_tracker/k_dist", 4.0);
    W().setParam("/trajectory_tracker/k_ang", 4.0);
    W().setParam("/trajectory_tracker/k_avel", 4.0);
    W().setParam("/trajectory_tracker/max_angvel", 1.5);
    W().setParam("/trajectory_tracker/max_angacc", 4.0);
    const double r = 1.2;
    double x = 0, y = 0, a = back ? M_PI : 0;
    sendTf("odom", "base_link", x, y, a);
    run(trajectory_tracker_main);
    auto out = W().listen<geometry_msgs::Twist>("/cmd_vel");
    std::vector<P> p;
    for (int i = 0; i <= 40; ++i)
    {
      const double t = 0.1 * i / r;
      p.push_back({r * std::sin(t), r * (1 - std::cos(t)), t + (back ? M_PI : 0), std::numeric_limits<double>::quiet_NaN()});
    }
    path(p);
    double far = 0, done = 0;
    for (int i = 0; i < 250; ++i)
    {
      W().advance(0.02);
      if (!out->empty())
      {
        const auto& c = out->back().second;
        a += c.angular.z * 0.02;
        x += std::cos(a) * c.linear.x * 0.02;
        y += std::sin(a) * c.linear.x * 0.02;
        done += std::abs(c.linear.x) * 0.02;
      }
      sendTf("odom", "base_link", x, y, a);
      far = std::max(far, std::abs(std::hypot(x, y - r) - r));
    }
    EXPECT(done > 1.5);
    EXPECT(far < 0.25);
    W().stop();
  }
  return bad;
}
"""))
SEEDS.append(dict(
    id="P23-second-request", property="P23",
    needs="an escape requested again, in crowd mode, while the planner is on the way to the place chosen for the first request",
    breaks="the temporary goal is taken for the original one: the second request ends the escape at once",
    edits=[(P3, "      const Astar::Vec g_orig = metric2Grid(goal_original_.pose);\n", "      const Astar::Vec g_orig = metric2Grid(goal_.pose);\n")],
    nodes=[P3], src=P3_SRC, demo=P_HEAD + r"""
#include <std_msgs/Empty.h>
int main()
{
  begin();
  W().setParam("/planner_3d/enable_crowd_mode", true);
  W().setParam("/planner_3d/temporary_escape", true);
  W().setParam("/planner_3d/esc_range", 0.5);
  W().setParam("/planner_3d/search_range", 0.2);
  rx = ry = 1.05;
  run(planner_3d_main);
  auto goal = W().listen<geometry_msgs::PoseStamped>("/planner_3d/current_goal");
  sendMap();
  tick(1);
  W().publish("/move_base_simple/goal", at(2.55, 1.05, 0));
  tick(1);
  EXPECT(!goal->empty() && std::abs(goal->back().second.pose.position.x - 2.55) < 0.06);
  for (int i = 0; i < 3; ++i)
  {
    goal->clear();
    W().publish("/planner_3d/temporary_escape", std_msgs::Empty());
    tick(1);
    EXPECT(!goal->empty());
    if (!goal->empty())
    {
      const auto& p = goal->back().second.pose.position;
      EXPECT(std::hypot(p.x - rx, p.y - ry) < 0.56);
    }
  }
  W().stop();
  return bad;
}
"""))
SEEDS.append(dict(
    id="P20-old-update-returns", property="P20",
    needs="an update that does not fit the map, a good one after it, and then a map in which the first one fits",
    breaks="an outdated costmap update is applied to the new map",
    edits=[(P3, "    map_update_retained_ = nullptr;\n    const auto ts_cm_init_end", "    const auto ts_cm_init_end")],
    nodes=[P3], src=P3_SRC, demo=P_HEAD + r"""
static void map(int w, ros::Time stamp)
{
  costmap_cspace_msgs::CSpace3D m;
  m.header.frame_id = "map";
  m.header.stamp = stamp;
  m.info.width = w;
  m.info.height = side;
  m.info.angle = angles;
  m.info.linear_resolution = 0.1;
  m.info.angular_resolution = 2 * M_PI / angles;
  m.info.origin.orientation.w = 1;
  m.data.assign(w * side * angles, 0);
  W().publish("/costmap", m);
  W().settle();
}
static void wall(int x, int cost)
{
  costmap_cspace_msgs::CSpace3DUpdate u;
  u.header.frame_id = "map";
  u.header.stamp = W().time();
  u.x = x;
  u.y = 0;
  u.width = 1;
  u.height = side;
  u.angle = angles;
  u.data.assign(side * angles, cost);
  W().publish("/costmap_update", u);
  W().settle();
}
static void stay(double t)
{
  for (int i = 0; i < t * 10; ++i)
  {
    sendTf("odom", "base_link", rx, ry, ra);
    W().advance(0.1);
  }
}
int main()
{
  begin();
  W().setParam("/planner_3d/temporary_escape", false);
  W().setParam("/planner_3d/search_range", 0.2);
  run(planner_3d_main);
  auto path = W().listen<nav_msgs::Path>("/path");
  const ros::Time stamp = W().time();
  map(18, stamp);
  stay(0.5);
  wall(20, 100);
  stay(0.2);
  wall(10, 0);
  stay(0.2);
  map(30, stamp);
  stay(0.5);
  W().publish("/move_base_simple/goal", at(2.55, 0.55, 0));
  stay(2);
  EXPECT(!path->empty() && path->back().second.poses.size() > 10);
  W().stop();
  return bad;
}
"""))
SEEDS.append(dict(
    id="P24-obstacle-behind-switchback", property="P24",
    needs="a plan with a change of driving direction and a costmap update that occupies the part after it",
    breaks="the blocked plan is kept until the switch-back wait time has passed",
    edits=[(P3, "            if (cm_[metric2Grid(path_pose.pose)] == 100)\n            {\n              // Obstacle on the path.\n", "            if (is_path_switchback_ &&\n                path_pose.pose.position.x == sw_pos_.pose.position.x &&\n                path_pose.pose.position.y == sw_pos_.pose.position.y)\n              break;\n            else if (cm_[metric2Grid(path_pose.pose)] == 100)\n            {\n              // Obstacle on the path.\n")],
    nodes=[P3], src=P3_SRC, demo=P_HEAD + r"""
static int obstacle_x = 0, obstacle_y = 0;
static void update(int cost)
{
  costmap_cspace_msgs::CSpace3DUpdate u;
  u.header.frame_id = "map";
  u.header.stamp = W().time();
  u.width = u.height = 1;
  u.angle = angles;
  u.x = obstacle_x;
  u.y = obstacle_y;
  u.data.assign(angles, cost);
  W().publish("/costmap_update", u);
  W().settle();
}
int main()
{
  int tried = 0;
  for (int side_step = 1; side_step <= 6; ++side_step)
  {
    begin();
    W().setParam("/planner_3d/temporary_escape", false);
    W().setParam("/planner_3d/search_range", 0.2);
    W().setParam("/planner_3d/min_curve_radius", 0.3);
    W().setParam("/planner_3d/cost_in_place_turn", 1000.0);
    W().setParam("/planner_3d/sw_wait", 6.0);
    W().setParam("/planner_3d/goal_tolerance_lin", 0.05);
    rx = ry = 1.05;
    run(planner_3d_main);
    auto path = W().listen<nav_msgs::Path>("/path");
    sendMap();
    tick(0.5);
    W().publish("/move_base_simple/goal", at(1.05 + 0.1 * (side_step - 3), 1.45, 0));
    for (int i = 0; i < 40 && (path->empty() || path->back().second.poses.size() < 2); ++i)
      tick(0.1);
    size_t back = 0;
    int dir = 0;
    nav_msgs::Path p;
    if (!path->empty())
      p = path->back().second;
    for (size_t i = 1; i < p.poses.size() && !back; ++i)
    {
      const auto &a = p.poses[i - 1].pose, &b = p.poses[i].pose;
      const double dx = b.position.x - a.position.x, dy = b.position.y - a.position.y;
      const double y = 2 * std::atan2(b.orientation.z, b.orientation.w), f = std::cos(y) * dx + std::sin(y) * dy;
      if (std::hypot(dx, dy) < 1e-3)
        continue;
      if (dir && (f < 0 ? -1 : 1) != dir)
        back = i;
      dir = f < 0 ? -1 : 1;
    }
    if (back && back + 3 < p.poses.size())
    {
      // a cell that only the part after the change passes
      for (size_t i = back + 2; i + 1 < p.poses.size(); ++i)
      {
        obstacle_x = std::floor(p.poses[i].pose.position.x / 0.1);
        obstacle_y = std::floor(p.poses[i].pose.position.y / 0.1);
        bool before = false;
        for (size_t k = 0; k <= back; ++k)
          before = before || (std::floor(p.poses[k].pose.position.x / 0.1) == obstacle_x && std::floor(p.poses[k].pose.position.y / 0.1) == obstacle_y);
        if (before)
          continue;
        path->clear();
        sendTf("odom", "base_link", rx, ry, ra);
        W().advance(0.5);
        EXPECT(path->empty());  // waiting
        sendTf("odom", "base_link", rx, ry, ra);
        update(100);
        for (int k = 0; k < 10; ++k)
        {
          W().advance(0.1);
          sendTf("odom", "base_link", rx, ry, ra);
        }
        EXPECT(!path->empty());
        ++tried;
        break;
      }
    }
    W().stop();
  }
  EXPECT(tried > 0);
  return bad;
}
"""))
RC = "trajectory_tracker/src/trajectory_recorder.cpp"
SEEDS.append(dict(
    id="T06-clear-keeps-last", property="T06",
    needs="the recorded path is cleared while the robot stands still",
    breaks="after clearing, the recording does not start where the robot is but only after it has travelled the interval",
    edits=[(RC, "  path_.header.seq = 0;\n", "  path_.header.seq = 0;\n  bool recorded = false;\n  geometry_msgs::Point last;\n"),
           (RC, "    if (path_.poses.size() == 0)\n    {\n", "    if (!recorded)\n    {\n      recorded = true;\n      last = pose.pose.position;\n"),
           (RC, "    else if (dist2d(path_.poses.back().pose.position, pose.pose.position) > dist_interval_)\n    {\n", "    else if (dist2d(last, pose.pose.position) > dist_interval_)\n    {\n      last = pose.pose.position;\n")],
    nodes=[RC], demo=r"""
#include <nav_msgs/Path.h>
#include <std_srvs/Empty.h>
int trajectory_recorder_main(int, char**);
int main()
{
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  double x = 0;
  sendTf("map", "base_link", x, 0, 0);
  run(trajectory_recorder_main);
  auto path = W().listen<nav_msgs::Path>("/path");
  const auto go = [&](double to)
  {
    for (int i = 0; i < 40; ++i)
    {
      x += (to - x) * 0.2;
      sendTf("map", "base_link", x, 0, 0);
      W().advance(0.05);
    }
  };
  go(2);
  EXPECT(!path->empty() && path->back().second.poses.size() >= 4);
  std_srvs::Empty::Request req;
  std_srvs::Empty::Response res;
  bool ran = false;
  W().call("/trajectory_recorder/clear_path", req, res, ran, 1.0);
  EXPECT(ran);
  path->clear();
  go(2.1);
  EXPECT(!path->empty());
  if (!path->empty())
    EXPECT(path->back().second.poses.size() == 1 && std::abs(path->back().second.poses[0].pose.position.x - 2) < 0.11);
  W().stop();
  return bad;
}
"""))
PM = "map_organizer/src/pointcloud_to_maps.cpp"
SEEDS.append(dict(
    id="M02-negative-cells", property="M02",
    needs="points at negative coordinates",
    breaks="walls and floors at negative coordinates are drawn one cell off",
    edits=[(PM, "          const int x = std::floor(p.x / grid);\n", "          const int x = p.x / grid;\n"),
           (PM, "          const int y = std::floor(p.y / grid);\n", "          const int y = p.y / grid;\n")],
    nodes=[PM], demo=r"""
#include <map_organizer_msgs/OccupancyGridArray.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
int pointcloud_to_maps_main(int, char**);
int main()
{
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  W().setParam("/pointcloud_to_maps/grid", 0.1);
  W().setParam("/pointcloud_to_maps/min_floor_area", 1.0);
  run(pointcloud_to_maps_main);
  auto maps = W().listen<map_organizer_msgs::OccupancyGridArray>("/maps");
  std::vector<std::array<float, 3>> pts;
  for (int i = -15; i < 15; ++i)
    for (int j = -15; j < 15; ++j)
      pts.push_back({0.1f * i + 0.05f, 0.1f * j + 0.05f, 0.05f});
  pts.push_back({-0.75f, -0.45f, 0.65f});
  sensor_msgs::PointCloud2 m;
  m.header.frame_id = "map";
  m.header.stamp = W().time();
  sensor_msgs::PointCloud2Modifier mod(m);
  mod.setPointCloud2FieldsByString(1, "xyz");
  mod.resize(pts.size());
  m.height = 1;
  m.width = pts.size();
  sensor_msgs::PointCloud2Iterator<float> ix(m, "x"), iy(m, "y"), iz(m, "z");
  for (auto& p : pts)
  {
    *ix = p[0], *iy = p[1], *iz = p[2];
    ++ix, ++iy, ++iz;
  }
  W().publish("/mapcloud", m);
  W().advance(1.0);
  EXPECT(maps->size() == 1 && maps->back().second.maps.size() == 1);
  if (!maps->empty() && !maps->back().second.maps.empty())
  {
    const auto& g = maps->back().second.maps[0];
    const int x = std::floor((-0.75 - g.info.origin.position.x) / 0.1), y = std::floor((-0.45 - g.info.origin.position.y) / 0.1);
    EXPECT(g.data[y * g.info.width + x] == 100);
  }
  W().stop();
  return bad;
}
"""))
