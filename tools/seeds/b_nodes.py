SEEDS = []
TR = "trajectory_tracker/src/trajectory_tracker.cpp"
TR_HEAD = r"""
#include <geometry_msgs/Twist.h>
#include <trajectory_tracker_msgs/PathWithVelocity.h>
#include <trajectory_tracker_msgs/TrajectoryTrackerStatus.h>
int trajectory_tracker_main(int, char**);
using Status = trajectory_tracker_msgs::TrajectoryTrackerStatus;
struct P { double x, y, a, v; };
static void path(const std::vector<P>& pts)
{
  trajectory_tracker_msgs::PathWithVelocity m;
  m.header.frame_id = "odom";
  m.header.stamp = W().time();
  for (auto& p : pts)
  {
    trajectory_tracker_msgs::PoseStampedWithVelocity q;
    q.header = m.header;
    q.pose.position.x = p.x;
    q.pose.position.y = p.y;
    yaw(q.pose.orientation, p.a);
    q.linear_velocity.x = p.v;
    m.poses.push_back(q);
  }
  W().publish("/path_velocity", m);
  W().settle();
}
"""
MX, JI = "joystick_interrupt/src/joystick_mux.cpp", "joystick_interrupt/src/joystick_interrupt.cpp"
J_HEAD = r"""
#include <geometry_msgs/Twist.h>
#include <sensor_msgs/Joy.h>
#include <std_msgs/Int32.h>
int joystick_mux_main(int, char**);
int joystick_interrupt_main(int, char**);
static void joy(int buttons, int pressed, double x = 0)
{
  sensor_msgs::Joy m;
  m.header.stamp = W().time();
  m.buttons.resize(buttons, 0);
  m.axes = {0, static_cast<float>(x)};
  if (pressed >= 0)
    m.buttons[pressed] = 1;
  W().publish("/joy", m);
  W().settle();
}
"""
SEEDS.append(dict(
    id="J02-short-message-keeps", property="J02",
    needs="a joystick that sends messages with fewer buttons right after the interrupt button was pressed",
    breaks="malformed joystick messages keep the interrupting input selected beyond the timeout",
    edits=[(MX, "  void cbJoy(const sensor_msgs::Joy::Ptr msg)\n  {\n", "  void cbJoy(const sensor_msgs::Joy::Ptr msg)\n  {\n    last_joy_msg_ = ros::Time::now();\n"),
           (MX, "      return;\n    }\n\n    last_joy_msg_ = ros::Time::now();\n", "      return;\n    }\n\n")],
    nodes=[MX], demo=J_HEAD + r"""
int main()
{
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  run(joystick_mux_main);
  auto out = W().listen<std_msgs::Int32>("/mux_output");
  auto send = [&](int id)
  {
    std_msgs::Int32 m;
    m.data = id;
    W().publish("/mux_input" + std::to_string(id), m);
    W().settle();
  };
  joy(8, 5);
  send(0);
  send(1);
  EXPECT(out->size() == 1 && out->back().second.data == 1);
  for (int i = 0; i < 10; ++i)
  {
    W().advance(0.2);
    joy(2, -1);
  }
  out->clear();
  send(1);
  EXPECT(out->empty());
  send(0);
  EXPECT(out->size() == 1 && out->back().second.data == 0);
  W().stop();
  return bad;
}
"""))
SEEDS.append(dict(
    id="J01-release-old-input", property="J01",
    needs="the input velocity changes while the joystick is in charge, and the button is released then",
    breaks="the velocity from before the interruption is commanded when the joystick is released",
    edits=[(JI, "    last_input_twist_ = *msg;\n    std_msgs::Bool status;\n", "    std_msgs::Bool status;\n"),
           (JI, "    {\n      pub_twist_.publish(last_input_twist_);\n      status.data = true;\n", "    {\n      last_input_twist_ = *msg;\n      pub_twist_.publish(last_input_twist_);\n      status.data = true;\n")],
    nodes=[JI], demo=J_HEAD + r"""
int main()
{
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  run(joystick_interrupt_main);
  auto out = W().listen<geometry_msgs::Twist>("/cmd_vel");
  auto send = [&](double v)
  {
    geometry_msgs::Twist m;
    m.linear.x = v;
    W().publish("/cmd_vel_input", m);
    W().settle();
  };
  send(0.7);
  EXPECT(out->size() == 1 && out->back().second.linear.x == 0.7);
  W().advance(0.1);
  joy(8, 6, 0.5);
  out->clear();
  send(0);  // the autonomous side stops meanwhile
  EXPECT(out->empty());
  joy(8, -1);
  EXPECT(out->size() == 1 && out->back().second.linear.x == 0);
  W().stop();
  return bad;
}
"""))
SL = "safety_limiter/src/safety_limiter.cpp"
S_HEAD = r"""
#include <geometry_msgs/Twist.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
#include <safety_limiter_msgs/SafetyLimiterStatus.h>
int safety_limiter_main(int, char**);
static void footprint(double l, double w)
{
  XmlRpc::XmlRpcValue fp;
  const double x[4] = {l, l, -l, -l}, y[4] = {w, -w, -w, w};
  for (int i = 0; i < 4; ++i)
  {
    fp[i][0] = x[i];
    fp[i][1] = y[i];
  }
  W().setParam("/safety_limiter/footprint", fp);
}
static void cloud(const char* frame, double x, double y)
{
  sensor_msgs::PointCloud2 m;
  m.header.frame_id = frame;
  m.header.stamp = W().time();
  sensor_msgs::PointCloud2Modifier mod(m);
  mod.setPointCloud2FieldsByString(1, "xyz");
  mod.resize(1);
  m.width = m.height = 1;
  sensor_msgs::PointCloud2Iterator<float> ix(m, "x"), iy(m, "y"), iz(m, "z");
  *ix = x;
  *iy = y;
  *iz = 0.2;
  W().publish("/cloud", m);
  W().settle();
}
static geometry_msgs::Twist command(double v, double w)
{
  auto out = W().listen<geometry_msgs::Twist>("/cmd_vel");
  geometry_msgs::Twist t;
  t.linear.x = v;
  t.angular.z = w;
  W().publish("/cmd_vel_in", t);
  W().settle();
  return out->empty() ? t : out->back().second;
}
"""
SEEDS.append(dict(
    id="S02-lost-sensor-frame", property="S02",
    needs="the transform of the sensor frame alone is lost while clouds keep coming and the base frame is still known",
    breaks="clouds that cannot be placed count as fresh data: the robot goes on with the old obstacles for ever",
    edits=[(SL, "  void cbCloud(const sensor_msgs::PointCloud2::ConstPtr& msg)\n  {\n", "  void cbCloud(const sensor_msgs::PointCloud2::ConstPtr& msg)\n  {\n    last_cloud_stamp_ = msg->header.stamp;\n    has_cloud_ = true;\n"),
           (SL, "    cloud_accum_->header.frame_id = fixed_frame_id_;\n    last_cloud_stamp_ = msg->header.stamp;\n    has_cloud_ = true;\n", "    cloud_accum_->header.frame_id = fixed_frame_id_;\n")],
    nodes=[SL], demo=S_HEAD + r"""
int main()
{
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  footprint(0.3, 0.2);
  sendTf("odom", "base_link", 0, 0, 0);
  run(safety_limiter_main);
  sendTf("base_link", "laser", 0, 0, 0, true);
  double v = 0;
  for (int i = 0; i < 40; ++i)
  {
    sendTf("odom", "base_link", 0, 0, 0);
    cloud("laser", 9, 9);
    W().advance(0.05);
    v = command(0.3, 0).linear.x;
  }
  EXPECT(std::abs(v - 0.3) < 1e-6);
  for (int i = 0; i < 80; ++i)
  {
    sendTf("odom", "base_link", 0, 0, 0);
    cloud("laser_renamed", 9, 9);
    W().advance(0.05);
    v = command(0.3, 0).linear.x;
  }
  EXPECT(v == 0);
  W().stop();
  return bad;
}
"""))
SEEDS.append(dict(
    id="S03-escape-clockwise", property="S03",
    needs="a robot in a collision that turns clockwise out of it or deeper into it",
    breaks="the angle left for escaping never runs out for negative rotations: the robot turns on although it stays in the collision",
    edits=[(SL, "        yaw_escape_remain -= std::abs(twist_.angular.z) * dt_;\n", "        yaw_escape_remain -= twist_.angular.z * dt_;\n")],
    nodes=[SL], demo=S_HEAD + r"""
int main()
{
  for (int sign = -1; sign <= 1; sign += 2)
  {
    sim::resetWorld();
    W().setParam("/neonavigation_compatible", 1);
    W().setParam("/safety_limiter/d_escape", 0.05);
    W().setParam("/safety_limiter/yaw_escape", 0.05);
    footprint(0.3, 0.2);
    sendTf("odom", "base_link", 0, 0, 0);
    run(safety_limiter_main);
    double w = 1;
    for (int i = 0; i < 40; ++i)
    {
      sendTf("odom", "base_link", 0, 0, 0);
      cloud("base_link", 0.05, 0);  // inside whatever the robot turns
      W().advance(0.05);
      w = command(0, 0.5 * sign).angular.z;
    }
    EXPECT(w == 0);
    W().stop();
  }
  return bad;
}
"""))
TO = "track_odometry/src/track_odometry.cpp"
SEEDS.append(dict(
    id="O03-old-imu-after-loss", property="O03",
    needs="the transform of the IMU is lost after it was known once",
    breaks="odometry is corrected with the attitude of an old IMU message instead of being withheld",
    edits=[(TO, '      ROS_ERROR("%s", e.what());\n      has_imu_ = false;\n', '      ROS_ERROR("%s", e.what());\n')],
    nodes=[TO], src=["track_odometry/src/tf_projection.cpp"], demo=r"""
#include <nav_msgs/Odometry.h>
#include <sensor_msgs/Imu.h>
int track_odometry_main(int, char**);
int main()
{
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  W().setParam("/track_odometry/base_link_id", std::string("base_link"));
  run(track_odometry_main);
  sendTf("base_link", "imu", 0, 0, 0, true);
  auto out = W().listen<nav_msgs::Odometry>("/odom");
  auto step = [&](int i, const char* frame)
  {
    W().advance(0.05);
    sensor_msgs::Imu u;
    u.header.frame_id = frame;
    u.header.stamp = W().time();
    yaw(u.orientation, 0.1 * i);
    nav_msgs::Odometry o;
    o.header.frame_id = "odom";
    o.child_frame_id = "base_link";
    o.header.stamp = W().time();
    o.pose.pose.position.x = 0.01 * i;
    o.pose.pose.orientation.w = 1;
    o.twist.twist.linear.x = 0.2;
    W().publish("/imu/data", u);
    W().publish("/odom_raw", o);
    W().settle();
  };
  for (int i = 0; i < 10; ++i)
    step(i, "imu");
  EXPECT(!out->empty());
  W().advance(0.5);
  out->clear();
  for (int i = 10; i < 20; ++i)
    step(i, "imu_renamed");
  for (auto& o : *out)  // whatever is published must not carry an old attitude
    EXPECT(std::abs(o.second.pose.pose.orientation.z - std::sin(0.05 * 9)) > 1e-3);
  W().stop();
  return bad;
}
"""))
SM = "map_organizer/src/select_map.cpp"
SEEDS.append(dict(
    id="M01-heights-of-old-maps", property="M01",
    needs="a second array of maps with other heights arrives",
    breaks="the transform of the selected floor has the height of the floor in the first array",
    edits=[(SM, "  orig_mapinfos.clear();\n", "")],
    nodes=[SM], demo=r"""
#include <map_organizer_msgs/OccupancyGridArray.h>
#include <nav_msgs/OccupancyGrid.h>
#include <std_msgs/Int32.h>
#include <tf2_ros/transform_broadcaster.h>
int select_map_main(int, char**);
int main()
{
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  run(select_map_main);
  auto maps = [&](double z0, double z1)
  {
    map_organizer_msgs::OccupancyGridArray a;
    a.maps.resize(2);
    for (auto& m : a.maps)
    {
      m.info.width = m.info.height = 1;
      m.info.resolution = 1;
      m.info.origin.orientation.w = 1;
      m.data.resize(1);
    }
    a.maps[0].info.origin.position.z = z0;
    a.maps[1].info.origin.position.z = z1;
    W().publish("/maps", a);
    W().advance(0.5);
  };
  auto height = [&]()
  {
    double z = -1;
    for (auto& t : sim::sentTf())
      z = t.msg.transform.translation.z;
    return z;
  };
  maps(0, 3);
  EXPECT(height() == 0);
  std_msgs::Int32 f;
  f.data = 1;
  W().publish("/floor", f);
  W().advance(0.5);
  EXPECT(height() == 3);
  maps(1, 5);
  EXPECT(height() == 5);
  W().stop();
  return bad;
}
"""))

SEEDS.append(dict(
    id="T05-short-path-goal", property="T05",
    needs="a path shorter than min_tracking_path but longer than the goal tolerance",
    breaks="GOAL is reported although the robot stands far from the end of the path",
    edits=[(TR, "    if (path_length < stop_tolerance_dist_ || in_place_turning)\n", "    if (path_length < min_track_path_ || in_place_turning)\n")],
    nodes=[TR], demo=TR_HEAD + r"""
int main()
{
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  W().setParam("/trajectory_tracker/min_tracking_path", 0.6);
  W().setParam("/trajectory_tracker/goal_tolerance_dist", 0.1);
  W().setParam("/trajectory_tracker/stop_tolerance_dist", 0.05);
  auto st = W().listen<Status>("/trajectory_tracker/status");
  sendTf("odom", "base_link", 0, 0, 0);
  run(trajectory_tracker_main);
  std::vector<P> p;
  for (int i = 0; i <= 8; ++i)
    p.push_back({0.06 * i, 0, 0, std::numeric_limits<double>::quiet_NaN()});
  path(p);
  for (int i = 0; i < 20; ++i)
  {
    W().advance(0.02);
    sendTf("odom", "base_link", 0, 0, 0);
  }
  EXPECT(!st->empty());
  for (auto& s : *st)
    EXPECT(s.second.status != Status::GOAL);
  W().stop();
  return bad;
}
"""))
SEEDS.append(dict(
    id="T04-rotation-speed", property="T04",
    needs="turning in place without the time optimal control, with an angular limit below the linear one and a large gain",
    breaks="the angular velocity is limited by the limit of the linear one",
    edits=[(TR, "          w_lim_.increment(wvel_increment, vel_[1], acc_[1], dt);\n", "          w_lim_.increment(wvel_increment, vel_[0], acc_[1], dt);\n")],
    nodes=[TR], demo=TR_HEAD + r"""
int main()
{
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  W().setParam("/trajectory_tracker/max_vel", 1.5);
  W().setParam("/trajectory_tracker/max_angvel", 0.3);
  W().setParam("/trajectory_tracker/use_time_optimal_control", false);
  W().setParam("/trajectory_tracker/k_ang_rotation", 20.0);
  W().setParam("/trajectory_tracker/k_avel_rotation", 1.0);
  double a = 0;
  sendTf("odom", "base_link", 0, 0, a);
  run(trajectory_tracker_main);
  auto out = W().listen<geometry_msgs::Twist>("/cmd_vel");
  std::vector<P> p;
  for (int i = 0; i <= 20; ++i)
    p.push_back({0, 0.1 * i, 1.5708, std::numeric_limits<double>::quiet_NaN()});
  path(p);
  bool turned = false;
  for (int i = 0; i < 200; ++i)
  {
    W().advance(0.02);
    for (auto& o : *out)
    {
      turned = turned || std::abs(o.second.angular.z) > 0.2;
      EXPECT(std::abs(o.second.angular.z) < 0.3 + 1e-6);
      a += o.second.angular.z * 0.02;
    }
    out->clear();
    sendTf("odom", "base_link", 0, 0, a);
  }
  EXPECT(turned);
  W().stop();
  return bad;
}
"""))
PC = "costmap_cspace/src/pointcloud2_to_map.cpp"
SEEDS.append(dict(
    id="C07-throttled-not-kept", property="C07",
    needs="clouds arriving faster than the maps are published",
    breaks="the clouds between two maps are lost, so obstacles seen only by them are missing in the maps",
    edits=[(PC, "    const int buffer = singleshot ? 1 : 0;\n    accums_[buffer].push(costmap_cspace::PointcloudAccumulator<sensor_msgs::PointCloud2>::Points(\n        cloud_global, cloud_global.header.stamp));\n\n", ""),
           (PC, "    published_ = now;\n", "    published_ = now;\n\n    const int buffer = singleshot ? 1 : 0;\n    accums_[buffer].push(costmap_cspace::PointcloudAccumulator<sensor_msgs::PointCloud2>::Points(\n        cloud_global, cloud_global.header.stamp));\n")],
    nodes=[PC], demo=r"""
#include <nav_msgs/OccupancyGrid.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
int pointcloud2_to_map_main(int, char**);
static void cloud(double x, double y)
{
  sensor_msgs::PointCloud2 m;
  m.header.frame_id = "base_link";
  m.header.stamp = W().time();
  sensor_msgs::PointCloud2Modifier mod(m);
  mod.setPointCloud2FieldsByString(1, "xyz");
  mod.resize(1);
  m.width = m.height = 1;
  sensor_msgs::PointCloud2Iterator<float> ix(m, "x"), iy(m, "y"), iz(m, "z");
  *ix = x;
  *iy = y;
  *iz = 0.2;
  W().publish("/cloud", m);
  W().settle();
}
int main()
{
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  W().setParam("/pointcloud2_to_map/hz", 2.0);
  run(pointcloud2_to_map_main);
  sendTf("map", "base_link", 0, 0, 0, true);
  auto out = W().listen<nav_msgs::OccupancyGrid>("/map_local");
  W().advance(5);
  const double xs[4] = {0.55, 0.25, -0.35, 0.75};  // one map with the first and the last cloud
  for (double x : xs)
  {
    cloud(x, 0.05);
    W().advance(0.2);
  }
  EXPECT(out->size() == 2);
  if (out->size() == 2)
  {
    int n = 0;
    for (auto c : out->back().second.data)
      n += c == 100;
    EXPECT(n == 4);
  }
  W().stop();
  return bad;
}
"""))
P2 = "planner_cspace/src/planner_2dof_serial_joints.cpp"
SEEDS.append(dict(
    id="P15-second-limit", property="P15",
    needs="a requested time shorter than the second joint, slower than the first one, can keep",
    breaks="the trajectory moves the second joint faster than its limit",
    edits=[(P2, "          if (avg_vel_ > links_[1].vmax_)\n            avg_vel_ = links_[1].vmax_;\n", "")],
    nodes=[P2], src=["planner_cspace/src/grid_astar_model_2dof_joints.cpp"], demo=r"""
#include <sensor_msgs/JointState.h>
#include <trajectory_msgs/JointTrajectory.h>
int planner_2dof_serial_joints_main(int, char**);
int main()
{
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  const std::string g = "/planner_2dof_serial_joints/group0_name";
  W().setParam(g, std::string("group0"));
  W().setParam("/planner_2dof_serial_joints/num_groups", 1);
  W().setParam("/planner_2dof_serial_joints/group0/link0_vmax", 1.0);
  W().setParam("/planner_2dof_serial_joints/group0/link1_vmax", 0.2);
  run(planner_2dof_serial_joints_main);
  auto out = W().listen<trajectory_msgs::JointTrajectory>("/joint_trajectory");
  sensor_msgs::JointState j;
  j.name = {"link0", "link1"};
  j.position = {0.1, 0.1};
  j.header.stamp = W().time();
  W().publish("/joint_states", j);
  W().settle();
  trajectory_msgs::JointTrajectory t;
  t.header.stamp = W().time();
  t.joint_names = j.name;
  t.points.resize(1);
  t.points[0].positions = {0.1, 0.7};
  t.points[0].time_from_start = ros::Duration(0.5);
  W().publish("/trajectory_in", t);
  W().settle();
  EXPECT(!out->empty());
  if (!out->empty())
  {
    double last = 0, th = 0.1;
    for (auto& p : out->front().second.points)
    {
      const double dt = p.time_from_start.toSec() - last;
      EXPECT(std::abs(p.positions[1] - th) <= 0.2 * dt + 1e-3);
      last = p.time_from_start.toSec();
      th = p.positions[1];
    }
    EXPECT(std::abs(th - 0.7) < 0.06);
  }
  W().stop();
  return bad;
}
"""))

P3 = "planner_cspace/src/planner_3d.cpp"
P3_SRC = ["planner_cspace/src/" + f + ".cpp" for f in ("distance_map", "costmap_bbf", "start_pose_predictor", "motion_cache", "motion_primitive_builder", "rotation_cache", "grid_astar_model_3dof")]
P_HEAD = r"""
#include <actionlib/server/simple_action_server.h>
#include <actionlib_msgs/GoalStatus.h>
#include <costmap_cspace_msgs/CSpace3D.h>
#include <costmap_cspace_msgs/CSpace3DUpdate.h>
#include <geometry_msgs/PoseStamped.h>
#include <move_base_msgs/MoveBaseAction.h>
#include <nav_msgs/Path.h>
#include <planner_cspace_msgs/PlannerStatus.h>
int planner_3d_main(int, char**);
using Status = planner_cspace_msgs::PlannerStatus;
using GoalId = actionlib_msgs::GoalStatus;
static const int side = 30, angles = 8;
static double rx = 0.55, ry = 0.55, ra = 0;
static void (*paint)(std::vector<int8_t>&) = nullptr;
static void sendMap()
{
  costmap_cspace_msgs::CSpace3D m;
  m.header.frame_id = "map";
  m.header.stamp = W().time();
  m.info.width = m.info.height = side;
  m.info.angle = angles;
  m.info.linear_resolution = 0.1;
  m.info.angular_resolution = 2 * M_PI / angles;
  m.info.origin.orientation.w = 1;
  m.data.assign(side * side * angles, 0);
  for (int k = 0; k < angles; ++k)
    for (int i = 0; i < side; ++i)
      for (int e : {0, 1, side - 2, side - 1})
        m.data[(k * side + i) * side + e] = m.data[(k * side + e) * side + i] = 100;
  if (paint)
  {
    std::vector<int8_t> d(m.data.begin(), m.data.end());
    paint(d);
    m.data.assign(d.begin(), d.end());
  }
  W().publish("/costmap", m, true);
  W().settle();
}
static void tick(double t)  // keeps the costmap and the pose fresh
{
  for (double done = 0; done < t - 1e-9; done += 0.1)
  {
    sendTf("odom", "base_link", rx, ry, ra);
    costmap_cspace_msgs::CSpace3DUpdate u;
    u.header.frame_id = "map";
    u.header.stamp = W().time();
    u.width = u.height = 1;
    u.angle = angles;
    u.x = u.y = side / 2;
    u.data.assign(angles, 0);
    W().publish("/costmap_update", u);
    W().advance(0.1);
  }
}
static void begin()
{
  sim::resetWorld();
  W().spin_cost_ns = 1000000;
  W().timer_latency_ns = 20000;
  W().setParam("/neonavigation_compatible", 1);
  sendTf("map", "odom", 0, 0, 0, true);
  W().external_subs.insert("/path");
}
static geometry_msgs::PoseStamped at(double x, double y, double a)
{
  geometry_msgs::PoseStamped g;
  g.header.frame_id = "map";
  g.header.stamp = W().time();
  g.pose.position.x = x;
  g.pose.position.y = y;
  yaw(g.pose.orientation, a);
  return g;
}
static auto send(double x, double y, double a)
{
  move_base_msgs::MoveBaseGoal g;
  g.target_pose = at(x, y, a);
  auto h = actionlib::sendGoal<move_base_msgs::MoveBaseAction>("/move_base", g);
  W().settle();
  return h;
}
"""
SEEDS.append(dict(
    id="P22-stuck-count-kept", property="P22",
    needs="a goal aborted after the limit of retries, followed by a goal that can be reached",
    breaks="the second goal is aborted at once although nothing was tried for it",
    edits=[(P3, "      has_goal_ = true;\n      cnt_stuck_ = 0;\n", "      has_goal_ = true;\n")],
    nodes=[P3], src=P3_SRC, demo=P_HEAD + r"""
int main()
{
  begin();
  W().setParam("/planner_3d/max_retry_num", 3);
  W().setParam("/planner_3d/temporary_escape", false);
  W().setParam("/planner_3d/tolerance_range", 0.1);
  run(planner_3d_main);
  paint = [](std::vector<int8_t>& d)
  {
    for (int k = 0; k < angles; ++k)
      for (int x = 14; x <= 26; ++x)
        for (int y = 14; y <= 26; ++y)
          d[(k * side + y) * side + x] = 100;
  };
  sendMap();
  tick(1);
  // reachable when it is accepted, then the obstacle grows over it
  paint = nullptr;
  sendMap();
  tick(1);
  auto h = send(2.05, 2.05, 0);
  tick(0.5);
  EXPECT(h->status == GoalId::ACTIVE);
  paint = [](std::vector<int8_t>& d)
  {
    for (int k = 0; k < angles; ++k)
      for (int x = 12; x <= 26; ++x)
        for (int y = 14; y <= 26; ++y)
          d[(k * side + y) * side + x] = 100;
  };
  sendMap();
  tick(10);
  EXPECT(h->status == GoalId::ABORTED);
  auto g = send(2.05, 0.55, 0);
  tick(2);
  EXPECT(g->status == GoalId::ACTIVE);
  W().stop();
  return bad;
}
"""))
