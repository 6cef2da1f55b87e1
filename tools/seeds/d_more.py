import os as _os
_ns = {}
exec(open(_os.path.join(V, "tools/seeds/b_nodes.py")).read(), _ns)
P3, P3_SRC, P_HEAD, SL, S_HEAD = (_ns[k] for k in ("P3", "P3_SRC", "P_HEAD", "SL", "S_HEAD"))
SEEDS = []
JD = "planner_cspace/include/planner_cspace/jump_detector.h"
DM = "planner_cspace/src/distance_map.cpp"
SP = "planner_cspace/src/start_pose_predictor.cpp"
AM = "planner_cspace/src/grid_astar_model_3dof.cpp"
P2D = "trajectory_tracker/include/trajectory_tracker/path2d.h"
GMC = "planner_cspace/include/planner_cspace/planner_3d/grid_metric_converter.h"
MODEL_SRC = ["planner_cspace/src/" + f + ".cpp" for f in ("motion_cache", "motion_primitive_builder", "rotation_cache", "grid_astar_model_3dof")]

SEEDS.append(dict(
    id="P14-forget-on-loss", property="P14",
    needs="a jump of the map frame while the transforms are unavailable for a moment",
    breaks="the last observation is forgotten when a transform is missing, so a jump in that time is never reported",
    edits=[(JD, "    catch (tf2::TransformException& e)\n    {\n      return false;\n", "    catch (tf2::TransformException& e)\n    {\n      init_ = false;\n      return false;\n")],
    nodes=[], src=["planner_cspace/src/rotation_cache.cpp"], demo=r"""
#include <planner_cspace/jump_detector.h>
int main()
{
  sim::resetWorld();
  tf2_ros::Buffer buf;
  planner_cspace::planner_3d::JumpDetector d(buf);
  d.setMapFrame("map");
  d.setBaseFrame("odom");
  d.setThresholds(1.0, 1.5);
  sendTf("map", "odom", 0, 0, 0);
  sendTf("odom", "base_link", 1, 0, 0);
  EXPECT(!d.detectJump());
  EXPECT(!d.detectJump());
  W().tf_blackout = true;
  EXPECT(!d.detectJump());
  W().tf_blackout = false;
  W().now += 100000000;
  sendTf("map", "odom", 3, 0, 0);
  sendTf("odom", "base_link", 1.2, 0, 0);
  EXPECT(d.detectJump());
  EXPECT(!d.detectJump());
  return bad;
}
"""))

SEEDS.append(dict(
    id="P10-frontier-dropped", property="P10",
    needs="a field cut at the robot's margin over a wide front and an update after the robot moved away from the goal",
    breaks="only the first cell beyond the margin is remembered as the place to go on from: later updates leave reachable cells without a value or with too large ones",
    edits=[(DM, "            edges_buf_[center.v_[0] + center.v_[1] * p_.size[0]] = true;\n            continue;\n", "            edges_buf_[center.v_[0] + center.v_[1] * p_.size[0]] = true;\n            break;\n")],
    nodes=[], src=[DM, "planner_cspace/src/costmap_bbf.cpp"] + MODEL_SRC, demo=r"""
#include <memory>
#include <planner_cspace/planner_3d/costmap_bbf.h>
#include <planner_cspace/planner_3d/distance_map.h>
#include <planner_cspace/planner_3d/grid_astar_model.h>
namespace p3 = planner_cspace::planner_3d;
using Astar = planner_cspace::GridAstar<3, 2>;
using Vec = Astar::Vec;
int main()
{
  const int w = 40, h = 30;
  Astar::Gridmap<char, 0x80> rough, hyst;
  Astar::Gridmap<char, 0x40> cm;
  rough.reset(Vec(w, h, 1));
  rough.clear(0);
  // a comb: every column is its own corridor
  for (int x = 1; x < w; x += 2)
    for (int y = 3; y < h; ++y)
      rough[Vec(x, y, 0)] = 100;
  auto bbf = std::make_shared<p3::CostmapBBFNoOp>();
  p3::DistanceMap dm(rough, bbf);
  costmap_cspace_msgs::MapMetaData3D info;
  info.width = w;
  info.height = h;
  info.angle = 4;
  info.linear_resolution = 1;
  info.angular_resolution = M_PI / 2;
  p3::CostCoeff cc = p3::CostCoeff();
  cc.weight_costmap_ = 1;
  cc.angle_resolution_aspect_ = 1;
  Astar::Vecf ec(1.f, 1.f, 0.2f);
  p3::GridAstarModel3D::Ptr model(new p3::GridAstarModel3D(info, ec, 1, dm.gridmap(), cm, hyst, rough, cc, 1));
  p3::DistanceMap::Params p;
  p.euclid_cost = ec;
  p.range = 1;
  p.local_range = 1;
  p.longcut_range = 1;
  p.size = Vec(w, h, 1);
  p.resolution = 1;
  dm.setParams(cc, 1);
  dm.init(model, p);
  dm.create(Vec(20, 6, 0), Vec(20, 1, 0));
  rough[Vec(39, 0, 0)] = 50;
  dm.update(Vec(20, 29, 0), Vec(20, 1, 0), p3::DistanceMap::Rect(Vec(39, 0, 0), Vec(39, 0, 0)));
  for (int x = 0; x < w; x += 2)
    for (int y = 3; y < 15; ++y)
      EXPECT(dm[Vec(x, y, 0)] < 60);
  return bad;
}
"""))

SEEDS.append(dict(
    id="P11-length-kept", property="P11",
    needs="a predictor that kept a part of a path and then gets one that may not be kept",
    breaks="the length of the part kept before is still reported although nothing is kept",
    edits=[(SP, "  preserved_path_.poses.clear();\n  preserved_path_length_ = 0.0;\n", "  preserved_path_.poses.clear();\n")],
    nodes=[], src=[SP] + MODEL_SRC, demo=r"""
#include <planner_cspace/planner_3d/start_pose_predictor.h>
namespace p3 = planner_cspace::planner_3d;
int main()
{
  planner_cspace::GridAstar<3, 2>::Gridmap<char, 0x40> cm;
  using Vec = planner_cspace::GridAstar<3, 2>::Vec;
  cm.reset(Vec(50, 10, 4));
  cm.clear(0);
  costmap_cspace_msgs::MapMetaData3D info;
  info.width = 50;
  info.height = 10;
  info.angle = 4;
  info.linear_resolution = 0.1;
  info.angular_resolution = M_PI / 2;
  info.origin.orientation.w = 1;
  p3::StartPosePredictor pred;
  pred.setConfig({1.0, 2.0, 0.3, 1.0, 1.0});
  nav_msgs::Path path;
  for (int i = 0; i < 40; ++i)
  {
    geometry_msgs::PoseStamped p;
    p.pose.position.x = 0.05 + 0.1 * i;
    p.pose.position.y = 0.55;
    p.pose.orientation.w = 1;
    path.poses.push_back(p);
  }
  Vec g;
  geometry_msgs::Pose robot = path.poses[0].pose;
  EXPECT(pred.process(robot, cm, info, path, g));
  EXPECT(pred.getPreservedPathLength() > 0.5);
  robot.position.y = 5;
  EXPECT(!pred.process(robot, cm, info, path, g));
  EXPECT(pred.getPreservedPath().poses.empty());
  EXPECT(pred.getPreservedPathLength() == 0);
  return bad;
}
"""))

SEEDS.append(dict(
    id="P07-turn-across-zero", property="P07",
    needs="an in-place turn of several steps that crosses heading zero, with an obstacle at a heading in between",
    breaks="the headings on the other side are checked, so turns through occupied headings are allowed and free ones refused",
    edits=[(AM, "    const int dir = d[2] < 0 ? -1 : 1;\n", "    const int dir = next[2] < cur[2] ? -1 : 1;\n")],
    nodes=[], src=MODEL_SRC, demo=r"""
#include <memory>
#include <planner_cspace/grid_astar.h>
#include <planner_cspace/planner_3d/grid_astar_model.h>
namespace p3 = planner_cspace::planner_3d;
using Astar = planner_cspace::GridAstar<3, 2>;
using Vec = Astar::Vec;
int main()
{
  Astar::Gridmap<float> g;
  Astar::Gridmap<char, 0x80> rough, hyst;
  Astar::Gridmap<char, 0x40> cm;
  rough.reset(Vec(20, 20, 1));
  rough.clear(0);
  hyst.reset(Vec(20, 20, 16));
  hyst.clear(0);
  cm.reset(Vec(20, 20, 16));
  cm.clear(0);
  g.reset(Vec(20, 20, 1));
  g.clear(0);
  costmap_cspace_msgs::MapMetaData3D info;
  info.width = info.height = 20;
  info.angle = 16;
  info.linear_resolution = 0.1;
  info.angular_resolution = 2 * M_PI / 16;
  p3::CostCoeff cc = p3::CostCoeff();
  cc.angle_resolution_aspect_ = 1;
  p3::GridAstarModel3D m(info, Astar::Vecf(1.f, 1.f, 0.2f), 5, g, cm, hyst, rough, cc, 3);
  const std::vector<p3::GridAstarModel3D::VecWithCost> start;
  const auto cost = [&](int a, int b)
  { return m.cost(Vec(10, 10, a), Vec(10, 10, b), start, Vec(1, 1, 0)); };
  EXPECT(cost(14, 2) >= 0 && cost(2, 14) >= 0 && cost(4, 7) >= 0);
  cm[Vec(10, 10, 0)] = 100;
  EXPECT(cost(14, 2) < 0);
  EXPECT(cost(2, 14) < 0);
  EXPECT(cost(4, 7) >= 0);
  cm[Vec(10, 10, 0)] = 0;
  cm[Vec(10, 10, 12)] = cm[Vec(10, 10, 4)] = 100;
  EXPECT(cost(14, 2) >= 0);
  EXPECT(cost(2, 14) >= 0);
  return bad;
}
"""))

SEEDS.append(dict(
    id="T02-range-late", property="T02",
    needs="a path that leaves the asked search range and comes back closer to the target",
    breaks="a segment beyond the asked range is returned as the nearest one",
    edits=[(P2D, "      distance_path_search += inc.norm();\n      if (max_search_range > 0 && distance_path_search > max_search_range)\n        break;\n", "      if (max_search_range > 0 && distance_path_search > max_search_range)\n        break;\n      distance_path_search += inc.norm();\n")],
    inc=["trajectory_tracker/include"], nodes=[], src=["planner_cspace/src/rotation_cache.cpp"], demo=r"""
#include <tf2_geometry_msgs/tf2_geometry_msgs.h>
#include <trajectory_tracker/path2d.h>
int main()
{
  trajectory_tracker::Path2D p;
  p.emplace_back(Eigen::Vector2d(0, 0), 0, 1);
  p.emplace_back(Eigen::Vector2d(1, 0), 0, 1);
  p.emplace_back(Eigen::Vector2d(0, 1), 0, 1);
  p.emplace_back(Eigen::Vector2d(0, 2), 0, 1);
  const Eigen::Vector2d t(0.2, 0.9);
  const auto it = p.findNearest(p.begin(), p.end(), t, 1.2);
  EXPECT(it - p.begin() == 1);
  const auto all = p.findNearest(p.begin(), p.end(), t);
  EXPECT(all - p.begin() == 2);
  return bad;
}
"""))

SEEDS.append(dict(
    id="P13-negative-heading", property="P13",
    needs="a pose with a heading between -pi and 0 that is not a whole number of heading cells",
    breaks="negative headings are rounded towards the next larger cell",
    edits=[(GMC, "  yaw = std::lround(gyaw / map_info.angular_resolution);\n", "  yaw = static_cast<int>(gyaw / map_info.angular_resolution + 0.5);\n")],
    nodes=[], src=["planner_cspace/src/rotation_cache.cpp"], demo=r"""
#include <costmap_cspace_msgs/MapMetaData3D.h>
#include <nav_msgs/Path.h>
#include <tf2_geometry_msgs/tf2_geometry_msgs.h>
#include <list>
#include <planner_cspace/planner_3d/grid_metric_converter.h>
int main()
{
  costmap_cspace_msgs::MapMetaData3D info;
  info.width = info.height = 10;
  info.angle = 16;
  info.linear_resolution = 0.1;
  info.angular_resolution = 2 * M_PI / 16;
  for (int k = -8; k <= 8; ++k)
    for (float off : {-0.3f, 0.f, 0.3f})
    {
      int x, y, a;
      planner_cspace::planner_3d::grid_metric_converter::metric2Grid(info, x, y, a, 0.55f, 0.25f, static_cast<float>((k + off) * info.angular_resolution));
      EXPECT(x == 5 && y == 2 && a == k);
    }
  return bad;
}
"""))

SEEDS.append(dict(
    id="S01-diagonal", property="S01",
    needs="a holonomic robot commanded diagonally",
    breaks="the speed is limited by component, so diagonal commands exceed the maximum speed",
    edits=[(SL, "      const double out_linear_vel = std::hypot(out.linear.x, out.linear.y);\n", "      const double out_linear_vel = std::max(std::abs(out.linear.x), std::abs(out.linear.y));\n")],
    nodes=[SL], demo=S_HEAD + r"""
int main()
{
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  W().setParam("/safety_limiter/max_linear_vel", 0.5);
  footprint(0.3, 0.2);
  sendTf("odom", "base_link", 0, 0, 0);
  run(safety_limiter_main);
  auto out = W().listen<geometry_msgs::Twist>("/cmd_vel");
  for (int i = 0; i < 40; ++i)
  {
    sendTf("odom", "base_link", 0, 0, 0);
    cloud("base_link", 9, 9);
    W().advance(0.05);
    geometry_msgs::Twist t;
    t.linear.x = 0.45;
    t.linear.y = 0.45;
    t.angular.z = 0.1;
    W().publish("/cmd_vel_in", t);
    W().settle();
  }
  EXPECT(!out->empty());
  if (!out->empty())
  {
    const auto& o = out->back().second;
    EXPECT(o.linear.x > 0.3 && std::abs(o.linear.x - o.linear.y) < 1e-6);
    EXPECT(std::hypot(o.linear.x, o.linear.y) < 0.5 + 1e-6);
  }
  W().stop();
  return bad;
}
"""))

SEEDS.append(dict(
    id="P21-rejected-update-counts", property="P21",
    needs="a watchdog time and costmap updates that do not fit the map while no usable ones come",
    breaks="updates that are not used keep the watchdog quiet: the robot goes on along the path on an old costmap",
    edits=[(P3, "    const ros::Time now = ros::Time::now();\n\n    const int map_update_x_min = static_cast<int>(msg->x);\n", "    const ros::Time now = ros::Time::now();\n    last_costmap_ = now;\n\n    const int map_update_x_min = static_cast<int>(msg->x);\n"),
           (P3, "    last_costmap_ = now;\n\n    cm_.copy_partially(\n", "    cm_.copy_partially(\n")],
    nodes=[P3], src=P3_SRC, demo=P_HEAD + r"""
int main()
{
  begin();
  W().setParam("/planner_3d/costmap_watchdog", 0.5);
  run(planner_3d_main);
  auto path = W().listen<nav_msgs::Path>("/path");
  sendMap();
  tick(0.5);
  W().publish("/move_base_simple/goal", at(2.05, 2.05, 0));
  tick(2);
  EXPECT(!path->empty() && path->back().second.poses.size() > 5);
  for (int i = 0; i < 30; ++i)
  {
    sendTf("odom", "base_link", rx, ry, ra);
    costmap_cspace_msgs::CSpace3DUpdate u;
    u.header.frame_id = "map";
    u.header.stamp = W().time();
    u.width = u.height = 1;
    u.angle = angles;
    u.x = u.y = side + 5;
    u.data.assign(angles, 0);
    W().publish("/costmap_update", u);
    W().advance(0.1);
  }
  EXPECT(!path->empty() && path->back().second.poses.empty());
  W().stop();
  return bad;
}
"""))
