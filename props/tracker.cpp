// T04, T05: the trajectory_tracker node on the simulated graph.
#include <pbt.h>
#include <algorithm>
#include <cmath>
#include <limits>
#include <geometry_msgs/Twist.h>
#include <nav_msgs/Odometry.h>
#include <nav_msgs/Path.h>
#include <std_msgs/Float32.h>
#include <trajectory_tracker/TrajectoryTrackerConfig.h>
#include <trajectory_tracker_msgs/PathWithVelocity.h>
#include <trajectory_tracker_msgs/TrajectoryTrackerStatus.h>
#include <dynamic_reconfigure/server.h>
#include <sim/world.h>

int trajectory_tracker_main(int argc, char** argv);
namespace
{
using pbt::Ctx;
using pbt::Src;
using Config = trajectory_tracker::TrajectoryTrackerConfig;
using Status = trajectory_tracker_msgs::TrajectoryTrackerStatus;
struct Pose
{
  double x = 0, y = 0, a = 0;
  Pose operator*(const Pose& o) const
  {
    return {x + std::cos(a) * o.x - std::sin(a) * o.y, y + std::sin(a) * o.x + std::cos(a) * o.y, a + o.a};
  }
  Pose inv() const
  {
    return {-std::cos(a) * x - std::sin(a) * y, std::sin(a) * x - std::cos(a) * y, -a};
  }
};
struct Pt : Pose
{
  double vel = std::numeric_limits<double>::quiet_NaN();
  Pt() {}
  Pt(const Pose& p, double v) : Pose(p), vel(v) {}
};
double norm(double a) { return std::remainder(a, 2 * M_PI); }
double angDiff(double a, double b) { return std::abs(norm(a - b)); }
void setQuat(geometry_msgs::Quaternion& q, double a)
{
  q.x = q.y = 0;
  q.z = std::sin(a / 2);
  q.w = std::cos(a / 2);
}
double stripDist(const std::vector<Pt>& p, double x, double y)
{
  if (p.empty())
    return 1e9;
  double best = std::hypot(p[0].x - x, p[0].y - y);
  for (size_t i = 1; i < p.size(); ++i)
  {
    const double lx = p[i].x - p[i - 1].x, ly = p[i].y - p[i - 1].y, l2 = lx * lx + ly * ly;
    double t = l2 > 0 ? ((x - p[i - 1].x) * lx + (y - p[i - 1].y) * ly) / l2 : 0;
    t = std::max(0.0, std::min(1.0, t));
    best = std::min(best, std::hypot(x - p[i - 1].x - t * lx, y - p[i - 1].y - t * ly));
  }
  return best;
}
struct Cmd
{
  double v, w;
};
struct Rig
{
  sim::World& w = sim::world();
  Config cfg;
  bool compat = false, use_odom = false, predict = true;
  double hz = 50, max_dt = 0.1, timeout = 0.1;
  Pose map_odom, pose;  // pose in odom
  std::vector<Pt> path;
  std::string frame;
  int64_t path_stamp = 0;
  bool path_ok = false;  // something to follow
  double speed = 0;
  int path_step = 1;  // when the path came
  double path_eps = 0;
  std::shared_ptr<std::vector<std::pair<ros::Time, geometry_msgs::Twist>>> out;
  std::shared_ptr<std::vector<std::pair<ros::Time, Status>>> status;
  size_t seen = 0, seen_status = 0;
  Cmd last{0, 0};
  int64_t last_odom = 0;      // reception
  int64_t last_odom_stamp = 0;
  std::string pre() const { return compat ? "/trajectory_tracker/" : "/"; }
  void begin(std::ostream& log)
  {
    w.setParam("/neonavigation_compatible", compat ? 0 : 1);
    struct Put
    {
      sim::World& w;
      std::ostream& o;
      void put(const char* n, const XmlRpc::XmlRpcValue& v) const { w.setParam(std::string("/trajectory_tracker/") + n, v); }
      void operator()(const char* n, double& v, double, double) const { put(n, v); o << n << "=" << v << " "; }
      void operator()(const char* n, int& v, int, int) const { put(n, v); o << n << "=" << v << " "; }
      void operator()(const char* n, bool& v) const { put(n, v); o << n << "=" << v << " "; }
    };
    cfg.forEachParam(Put{w, log});
    w.setParam("/trajectory_tracker/hz", hz);
    w.setParam("/trajectory_tracker/use_odom", use_odom);
    w.setParam("/trajectory_tracker/predict_odom", predict);
    w.setParam("/trajectory_tracker/max_dt", max_dt);
    w.setParam("/trajectory_tracker/odom_timeout_sec", timeout);
    log << "hz=" << hz << " use_odom=" << use_odom << " predict=" << predict << " max_dt=" << max_dt << " timeout=" << timeout << "\n";
    out = w.listen<geometry_msgs::Twist>(pre() + "cmd_vel");
    status = w.listen<Status>("/trajectory_tracker/status");
    speed = cfg.max_vel;
    setStatic();
    tf();
    w.start([]
            { char n[] = "n"; char* a[] = {n, nullptr}; return trajectory_tracker_main(1, a); });
    w.settle();
    PBT_CHECK(!w.crashed, "crash", w.crash_what);
  }
  void setStatic()
  {
    const double q[4] = {0, 0, std::sin(map_odom.a / 2), std::cos(map_odom.a / 2)}, p[3] = {map_odom.x, map_odom.y, 0};
    w.setTf("map", "odom", w.now, p, q, true);
  }
  void tf()
  {
    const double q[4] = {0, 0, std::sin(pose.a / 2), std::cos(pose.a / 2)}, p[3] = {pose.x, pose.y, 0};
    w.setTf("odom", "base_link", w.now, p, q, false);
  }
  Pose inPathFrame(const Pose& p) const { return frame == "map" ? map_odom * p : p; }
  Pose toOdom(const Pose& p) const { return frame == "map" ? map_odom.inv() * p : p; }
  void sendPath(const std::vector<Pt>& p, const std::string& f, bool with_vel)
  {
    path = p;
    frame = f;
    path_ok = !p.empty() && !f.empty();
    path_stamp = w.now;
    path_step = cfg.path_step;
    path_eps = cfg.epsilon;
    if (with_vel)
    {
      trajectory_tracker_msgs::PathWithVelocity m;
      m.header.frame_id = f;
      m.header.stamp.fromNSec(w.now);
      for (auto& q : p)
      {
        m.poses.emplace_back();
        m.poses.back().header = m.header;
        m.poses.back().pose.position.x = q.x;
        m.poses.back().pose.position.y = q.y;
        setQuat(m.poses.back().pose.orientation, q.a);
        m.poses.back().linear_velocity.x = q.vel;
        if (std::isfinite(q.vel) && q.vel < 0)
          path_ok = false;
      }
      w.publish("/path_velocity", m);
    }
    else
    {
      nav_msgs::Path m;
      m.header.frame_id = f;
      m.header.stamp.fromNSec(w.now);
      for (auto& q : path)
      {
        q.vel = std::numeric_limits<double>::quiet_NaN();
        m.poses.emplace_back();
        m.poses.back().header = m.header;
        m.poses.back().pose.position.x = q.x;
        m.poses.back().pose.position.y = q.y;
        setQuat(m.poses.back().pose.orientation, q.a);
      }
      w.publish(pre() + "path", m);
    }
    w.settle();
  }
  void setSpeed(double v)
  {
    std_msgs::Float32 m;
    m.data = v;
    speed = v;
    w.publish(pre() + "speed", m);
    w.settle();
  }
  void odom(int64_t stamp, const Pose& p, double v, double wz)
  {
    nav_msgs::Odometry m;
    m.header.frame_id = "odom";
    m.child_frame_id = "base_link";
    m.header.stamp.fromNSec(stamp);
    m.pose.pose.position.x = p.x;
    m.pose.pose.position.y = p.y;
    setQuat(m.pose.pose.orientation, p.a);
    m.twist.twist.linear.x = v;
    m.twist.twist.angular.z = wz;
    w.publish("/odom", m);
    w.settle();
  }
  void drive(double dt, const Cmd& c)
  {
    const double a = pose.a + c.w * dt / 2;
    pose.x += c.v * std::cos(a) * dt;
    pose.y += c.v * std::sin(a) * dt;
    pose.a = norm(pose.a + c.w * dt);
  }
  void alive() { PBT_CHECK(!w.crashed && w.alive(), "crash", "the node ended: " << w.crash_what); }
};
// ---- generators
void randConfig(Src& s, Config& c, bool sane)
{
  auto f = [&](double& v, double lo, double hi)
  {
    if (s.flip())
      v = s.real(lo, hi);
  };
  f(c.look_forward, sane ? 0.2 : 0.0, sane ? 0.5 : 2.0);
  f(c.curv_forward, 0.1, 1.0);
  f(c.max_vel, 0.1, 1.0);
  f(c.max_angvel, 0.5, 2.0);
  f(c.max_acc, 0.3, 3.0);
  f(c.max_angacc, sane ? 1.5 : 0.5, 5.0);
  if (!sane)
  {
    f(c.k_dist, 0.0, 10.0);
    f(c.k_ang, 0.0, 10.0);
    f(c.k_avel, 0.0, 10.0);
    f(c.gain_at_vel, 0.0, 1.0);
    f(c.dist_lim, 0.0, 2.0);
    f(c.dist_stop, 0.1, 4.0);
    f(c.rotate_ang, 0.1, 3.1415);
    f(c.max_angvel, 0.05, 2.0);
    f(c.acc_toc_factor, 0.1, 1.0);
    f(c.angacc_toc_factor, 0.1, 1.0);
    f(c.goal_tolerance_dist, 0.0, 1.0);
    f(c.goal_tolerance_ang, 0.0, 1.0);
    f(c.stop_tolerance_dist, 0.0, 0.5);
    f(c.stop_tolerance_ang, 0.0, 0.5);
    if (s.chance(1, 4))
      c.no_position_control_dist = s.real(0, 2);
    if (s.chance(1, 4))
      c.min_tracking_path = s.real(0, 2);
    f(c.time_optimal_control_future_gain, 0.0, 5.0);
    f(c.k_ang_rotation, 0.0, 10.0);
    f(c.k_avel_rotation, 0.0, 10.0);
    f(c.goal_tolerance_lin_vel, 0.0, 0.5);
    f(c.goal_tolerance_ang_vel, 0.0, 0.5);
    if (s.chance(1, 4))
      c.epsilon = s.real(0, 0.05);
    if (s.chance(1, 5))
      c.path_step = s.irange(1, 8);
    c.allow_backward = !s.chance(1, 4);
    c.use_time_optimal_control = !s.chance(1, 3);
    c.limit_vel_by_avel = s.flip();
    c.check_old_path = s.chance(1, 5);
  }
  else
    c.limit_vel_by_avel = s.chance(1, 3);
}
enum Kind
{
  STRAIGHT,
  CURVED,
  TURNS,
  SINGLE,
  EMPTY,
  NEGATIVE,
  DENSE
};
// A path in the odom frame that begins near `at`.
std::vector<Pt> randPath(Src& s, const Pose& at, int kind)
{
  std::vector<Pt> p;
  if (kind == EMPTY)
    return p;
  Pose c = at;
  if (s.flip())
  {
    c.x += s.sym(1.5);
    c.y += s.sym(1.5);
    c.a += s.sym(M_PI);
  }
  else if (s.flip())
    c.a += s.sym(0.5);
  const bool back = s.chance(1, 3);
  int n = s.irange(2, 24);
  double step = s.flip() ? 0.1 : s.real(0.02, 1.0);
  if (kind == STRAIGHT && s.chance(1, 4))
  {
    n = 2;
    step = s.real(0.2, 8);
  }
  if (kind == SINGLE)
    n = 1;
  if (kind == DENSE)
    step = s.real(0.0, 0.01);
  if (kind == NEGATIVE)
    step = std::max(step, 0.1);  // poses nearer than epsilon are merged
  const int vmode = s.irange(0, 3);
  const double v0 = s.real(0.0, 1.0);
  double dir = 1, curv = 0;
  for (int i = 0; i < n; ++i)
  {
    double vel = std::numeric_limits<double>::quiet_NaN();
    if (vmode == 1)
      vel = v0;
    else if (vmode >= 2)
      vel = s.chance(1, 6) ? vel : s.real(0.0, 1.0);
    if (kind == NEGATIVE && i == n / 2)
      vel = s.chance(1, 4) ? -1e-3 : -s.real(0.01, 1.0);
    p.push_back(Pt(c * Pose{0, 0, back ? M_PI : 0.0}, vel));
    if (kind == CURVED || kind == TURNS)
      curv = s.chance(1, 4) ? s.sym(1.5) : curv;
    if (kind == TURNS && s.chance(1, 6))
    {
      Pt q = p.back();  // turn in place
      c.a += s.sym(M_PI);
      q.a = c.a + (back ? M_PI : 0.0);
      p.push_back(q);
    }
    if (kind == TURNS && s.chance(1, 8))
      dir = -dir;
    c.a += curv * step / 2;
    c = c * Pose{dir * step, 0, curv * step / 2};
  }
  return p;
}
struct Geo  // facts about straight one-piece paths
{
  bool straight = false;
  double x0, y0, dir, len, end_yaw;
  bool backward = false;
};
struct Show
{
  std::ostream& o;
  template <class T, class... R>
  void operator()(const char* n, T& v, R...) const
  {
    o << " " << n << "=" << v;
  }
};

enum What
{
  LIMITS,
  STOPS
};
void history(Ctx& c, What what)
{
  Src& s = c.src;
  sim::resetWorld();
  Rig r;
  sim::World& w = r.w;
  pbt::Scribe log(c);
  r.compat = s.chance(1, 4);
  r.use_odom = s.flip();
  r.predict = !s.chance(1, 3);
  r.hz = s.flip() ? 50.0 : s.irange(5, 60);
  if (s.chance(1, 3))
    r.max_dt = s.real(0.02, 0.3);
  if (s.chance(1, 3))
    r.timeout = s.chance(1, 4) ? 0.0 : s.real(0.05, 0.6);
  randConfig(s, r.cfg, false);
  if (s.chance(1, 3))
    r.map_odom = {s.sym(5), s.sym(5), s.sym(M_PI)};
  r.pose = {s.sym(3), s.sym(3), s.sym(M_PI)};
  r.begin(log);
  Geo geo;
  bool continuous = false;  // no jump since the path came
  double furthest = 0;
  bool far = false, in_stop = false, in_goal = false, timed_out = false;
  bool short_untracked = false;
  int moving = 0, stopped_after_moving = 0, events = 0, follows = 0;
  double fresh_limit = 0;
  const int steps = s.irange(5, 60);
  auto limitNow = [&]
  {
    double l = 0;
    for (auto& p : r.path)
      l = std::max(l, std::isnan(p.vel) ? r.speed : p.vel);
    return l;
  };
  // Looks at what the node said since the last call; dt: period of each control step.
  auto look = [&](double dt, bool control_expected, bool blackout)
  {
    r.alive();
    const size_t n = r.out->size() - r.seen;
    if (what == STOPS)
    {
      PBT_CHECK(n == (control_expected ? 1u : 0u), "silent", "the node sent " << n << " commands in a control step, expected " << control_expected << (blackout ? " (transforms lost)" : ""));
      PBT_CHECK(r.status->size() - r.seen_status == n, "status_count", "commands " << n << " statuses " << r.status->size() - r.seen_status);
    }
    for (; r.seen < r.out->size(); ++r.seen)
    {
      const auto& t = (*r.out)[r.seen].second;
      const Cmd cmd{t.linear.x, t.angular.z};
      log << " -> v=" << cmd.v << " w=" << cmd.w;
      const bool zero = cmd.v == 0 && cmd.w == 0;
      if (what == LIMITS)
      {
        PBT_CHECK(std::isfinite(cmd.v) && std::isfinite(cmd.w), "finite", "command " << cmd.v << " " << cmd.w);
        PBT_CHECK(t.linear.y == 0 && t.linear.z == 0 && t.angular.x == 0 && t.angular.y == 0, "axes", "a command on an unused axis");
        const double vl = std::max(limitNow(), fresh_limit), wl = r.cfg.max_angvel;
        const double dv = r.cfg.max_acc * dt, dw = r.cfg.max_angacc * dt;
        PBT_CHECK(std::abs(cmd.v) <= std::max(vl, std::abs(r.last.v) - dv) + 1e-4, "lin_limit",
                  "linear velocity " << cmd.v << " after " << r.last.v << ", limit " << vl << " acc*dt " << dv);
        PBT_CHECK(std::abs(cmd.w) <= std::max(wl, std::abs(r.last.w) - dw) + 1e-4, "ang_limit",
                  "angular velocity " << cmd.w << " after " << r.last.w << ", limit " << wl << " acc*dt " << dw);
        PBT_CHECK(zero || std::abs(cmd.v - r.last.v) <= dv + 1e-4, "lin_acc",
                  "linear velocity changed from " << r.last.v << " to " << cmd.v << ", allowed change " << dv);
        // with no time passed and a path folded into a point, the angular velocity is undefined and 0
        PBT_CHECK(zero || (dt == 0 && cmd.w == 0) || std::abs(cmd.w - r.last.w) <= dw + 1e-4, "ang_acc",
                  "angular velocity changed from " << r.last.w << " to " << cmd.w << ", allowed change " << dw);
      }
      else
      {
        const Status& st = (*r.status)[r.seen_status].second;
        log << " status " << st.status << " dist " << st.distance_remains << " ang " << st.angle_remains;
        const Pose at = r.inPathFrame(r.pose);
        const double la = r.last.w * r.cfg.look_forward / 2, lv = r.last.v * r.cfg.look_forward;
        const Pose ahead = at * Pose{lv * std::cos(la), lv * std::sin(la), 0};
        const int64_t stamp = st.path_header.stamp.toNSec();
        PBT_CHECK(stamp == r.path_stamp && st.path_header.frame_id == r.frame, "path_header", "the status is about another path: " << stamp << " instead of " << r.path_stamp);
        if (!r.path_ok || blackout)
        {
          PBT_CHECK(st.status == Status::NO_PATH, "no_path", "status " << st.status << " without a path to follow");
          PBT_CHECK(zero, "no_path_cmd", "command " << cmd.v << " " << cmd.w << " without a path to follow");
          PBT_CHECK(st.distance_remains == 0 && st.angle_remains == 0, "no_path_remains", "remaining distance without a path");
        }
        else
        {
          PBT_CHECK(st.status == Status::FOLLOWING || st.status == Status::GOAL || st.status == Status::FAR_FROM_PATH, "has_path",
                    "status " << st.status << " although a path is given");
          const double d = stripDist(r.path, ahead.x, ahead.y);
          if (st.status == Status::FAR_FROM_PATH)
            PBT_CHECK(zero, "far_cmd", "command " << cmd.v << " " << cmd.w << " far from the path");
          if (d > r.cfg.dist_stop + 0.05 + r.path_eps && r.path_step == 1)
          {
            far = true;
            PBT_CHECK(std::abs(cmd.v) <= std::max(0.0, std::abs(r.last.v) - r.cfg.max_acc * dt) + 1e-4, "far_moves",
                      "the robot is " << d << " from the path (stop distance " << r.cfg.dist_stop << ") and is driven at " << cmd.v << " after " << r.last.v << ", status " << st.status);
          }
          if (geo.straight && continuous && r.path_step == 1)
          {
            const double px = ahead.x - geo.x0, py = ahead.y - geo.y0;
            const double along = std::cos(geo.dir) * px + std::sin(geo.dir) * py;
            const double yaw_err = at.a - geo.dir;
            const double err = norm(yaw_err);
            const double len_slack = 1e-3 + 3 * r.cfg.epsilon;
            const bool short_path = geo.len < r.cfg.no_position_control_dist + len_slack || geo.len < r.cfg.stop_tolerance_dist + len_slack ||
                                    std::abs(geo.len - r.cfg.min_tracking_path) < len_slack;
            const bool untracked = geo.len < r.cfg.min_tracking_path;  // only turned to the end's direction
            short_untracked = short_untracked || (!short_path && untracked);
            if (!short_path)
            {
              // The node looks for its place up to 1 m ahead of its progress.
              if (furthest > -1e8 && along > furthest + 0.3)
                continuous = false;
              furthest = std::max(furthest, along);
            }
            if (!short_path && continuous)
            {
              ++follows;
              PBT_CHECK(std::abs(st.distance_remains - (geo.len - along)) < 2e-3 + 3 * r.cfg.epsilon, "remains",
                        "remaining distance " << st.distance_remains << ", expected " << geo.len - along);
              const bool flip = r.cfg.allow_backward && geo.backward;
              const double want = flip ? err + M_PI : err;
              const double slack = 2e-3 + 3 * r.cfg.epsilon;  // the nearest piece is chosen with epsilon
              const bool arrived = untracked || std::abs(geo.len - along) < r.cfg.stop_tolerance_dist + slack;
              const bool near_end = !untracked && std::abs(std::abs(geo.len - along) - r.cfg.stop_tolerance_dist) < 2 * slack;
              const double want_end = at.a - geo.end_yaw;
              const bool m1 = angDiff(st.angle_remains, want) < 3e-3, m2 = angDiff(st.angle_remains, want_end) < 3e-3;
              PBT_CHECK(near_end ? m1 || m2 : arrived ? m2 : m1, "remains_angle",
                        "remaining angle " << st.angle_remains << ", expected " << norm(arrived ? want_end : want));
              if (d < r.cfg.dist_stop - 0.05 && along > furthest - 0.01)
                PBT_CHECK(st.status != Status::FAR_FROM_PATH, "not_far", "FAR_FROM_PATH reported at " << d << " from the path, stop distance " << r.cfg.dist_stop);
              const bool in_tol = std::abs(geo.len - along) < r.cfg.goal_tolerance_dist + slack && angDiff(st.angle_remains, 0) < r.cfg.goal_tolerance_ang + 2e-3;
              if (st.status == Status::GOAL)
                PBT_CHECK(in_tol, "goal", "GOAL reported with " << geo.len - along << " m, " << st.angle_remains << " rad remaining");
              const double along_raw = std::cos(geo.dir) * (at.x - geo.x0) + std::sin(geo.dir) * (at.y - geo.y0);
              auto within = [&](double td, double ta)
              {
                return std::abs(geo.len - along) < td - slack && std::abs(geo.len - along_raw) < td - slack && along_raw <= along + 1e-3 && std::abs(st.angle_remains) < ta - 2e-3;
              };
              // predict_odom moves the raw values by the predicted motion: judged only without it.
              if ((!r.use_odom || !r.predict) && st.status != Status::FAR_FROM_PATH)
              {
                if (within(r.cfg.stop_tolerance_dist, r.cfg.stop_tolerance_ang))
                {
                  in_stop = true;
                  PBT_CHECK(zero, "stop_cmd", "command " << cmd.v << " " << cmd.w << " within the stop tolerance");
                }
                if (within(r.cfg.goal_tolerance_dist, r.cfg.goal_tolerance_ang) && (!r.use_odom || (r.cfg.goal_tolerance_lin_vel == 0 && r.cfg.goal_tolerance_ang_vel == 0)))
                {
                  in_goal = true;
                  PBT_CHECK(st.status == Status::GOAL || d > r.cfg.dist_stop - 0.05, "goal_missed", "status " << st.status << " within the goal tolerance");
                }
              }
            }
          }
        }
      }
      if (!zero)
        ++moving;
      else if (r.last.v != 0 || r.last.w != 0)
        ++stopped_after_moving;
      r.last = cmd;
      ++r.seen_status;
      fresh_limit = 0;
    }
    r.seen_status = r.status->size();
  };
  auto checkTimeout = [&](int64_t before)
  {
    // Odometry was silent since last_odom; time is now w.now.
    if (!r.use_odom || r.timeout == 0 || r.last_odom == 0)
      return;
    const int64_t due = r.last_odom + static_cast<int64_t>(r.timeout * 1e9);
    if (std::abs(w.now - due) <= 1000000)
    {
      // on the edge: either
      for (; r.seen < r.out->size(); ++r.seen)
        r.last = {(*r.out)[r.seen].second.linear.x, (*r.out)[r.seen].second.angular.z};
      r.seen_status = r.status->size();
    }
    if (w.now > due + 1000000)
    {
      r.alive();
      if (what == STOPS && before <= due - 1000000)
      {
        timed_out = true;
        PBT_CHECK(r.out->size() > r.seen, "timeout_silent", "no command after the odometry was lost for " << (w.now - r.last_odom) * 1e-9);
        const auto& t = r.out->back().second;
        PBT_CHECK(t.linear.x == 0 && t.angular.z == 0, "timeout_cmd", "command " << t.linear.x << " after the odometry was lost");
        PBT_CHECK(r.status->back().second.status == Status::NO_PATH, "timeout_status", "status " << r.status->back().second.status << " after the odometry was lost");
        const double late = (r.out->back().first.toNSec() - due) * 1e-9;
        PBT_CHECK(std::abs(late) < 0.005, "timeout_time", "stopped " << late << " s after the timeout");
      }
      for (; r.seen < r.out->size(); ++r.seen)
        r.last = {r.out->back().second.linear.x, r.out->back().second.angular.z};
      r.seen_status = r.status->size();
    }
  };
  for (int i = 0; i < steps; ++i)
  {
    const int op = s.weighted({i == 0 ? 0 : 60, 14, 4, 4, 4, 4, 4});
    if (op == 1)
    {
      const int kind = s.weighted({30, 20, 20, 4, 4, 4, 4});
      const bool with_vel = kind == NEGATIVE || s.flip();
      std::vector<Pt> p = randPath(s, r.pose, kind);
      std::string f = s.flip() ? "map" : "odom";
      if (s.chance(1, 30))
        f = "";
      r.frame = f;
      for (auto& q : p)
        static_cast<Pose&>(q) = r.inPathFrame(q);
      fresh_limit = std::max(fresh_limit, 0.0);
      r.sendPath(p, f, with_vel);
      log << "\npath kind " << kind << " frame '" << f << "' vel " << with_vel << ":";
      for (auto& q : r.path)
        log << " (" << q.x << "," << q.y << "," << q.a << "," << q.vel << ")";
      geo = Geo();
      continuous = true;
      furthest = -1e9;
      if (kind == STRAIGHT && p.size() >= 2)
      {
        geo.straight = true;
        geo.x0 = p[0].x;
        geo.y0 = p[0].y;
        geo.dir = std::atan2(p.back().y - p[0].y, p.back().x - p[0].x);
        geo.len = std::hypot(p.back().y - p[0].y, p.back().x - p[0].x);
        geo.end_yaw = p.back().a;
        geo.backward = std::cos(geo.end_yaw - geo.dir) < 0;
        // points merged by epsilon are another path
        if (std::hypot(p[1].x - p[0].x, p[1].y - p[0].y) < r.cfg.epsilon + 2e-3)
          geo.straight = false;
      }
      ++events;
      look(0, false, false);
    }
    else if (op == 2)
    {
      r.setSpeed(s.chance(1, 4) ? 0.0 : s.real(0.0, 1.5));
      log << "\nspeed " << r.speed;
      look(0, false, false);
      ++events;
    }
    else if (op == 3)
    {
      Config n = r.cfg;
      randConfig(s, n, false);
      dynamic_reconfigure::reconfigure<Config>([&](Config& x)
                                               { x = n; });
      r.cfg = n;
      r.speed = n.max_vel;
      log << "\nconfig";
      n.forEachParam(Show{log});
      geo.straight = geo.straight && false;  // which piece is followed may depend on the old configuration
      look(0, false, false);
      ++events;
    }
    else if (op == 4)
    {
      r.pose = {r.pose.x + s.sym(3), r.pose.y + s.sym(3), s.sym(M_PI)};
      continuous = false;
      log << "\njump to " << r.pose.x << " " << r.pose.y << " " << r.pose.a;
      ++events;
    }
    else if (op == 5)
    {
      // the odometry stops, or nothing happens for a while
      const double gap = s.real(0.0, 1.0);
      log << "\ngap " << gap;
      if (!r.use_odom)
      {
        continue;
      }
      const int64_t before = w.now;
      w.advance(gap);
      r.tf();
      checkTimeout(before);
      look(0, false, false);
      ++events;
    }
    const bool blackout = op == 6;
    const int rep = op == 0 ? s.irange(1, 25) : 1;
    for (int k = 0; k < rep; ++k)
    {
      w.tf_blackout = blackout;
      if (blackout)
        log << "\nblackout";
      else
        log << "\nrun";
      if (!r.use_odom)
      {
        r.drive(1 / r.hz, r.last);
        r.tf();
        w.advance(1 / r.hz);
        look(1 / r.hz, true, blackout);
      }
      else
      {
        double dt = s.chance(1, 4) ? s.real(0.001, 0.2) : 0.02;
        if (dt > r.timeout - 0.002 && r.timeout > 0)
          dt = std::max(0.001, r.timeout / 2);
        r.drive(dt, r.last);
        const int64_t before = w.now;
        w.advanceNs(static_cast<int64_t>(dt * 1e9));
        r.tf();
        checkTimeout(before);
        int64_t stamp = w.now;
        if (s.chance(1, 8))
        {
          // transport delay, disorder, or a clock step
          stamp -= static_cast<int64_t>((s.chance(1, 3) ? s.real(0, 30) : s.real(0, 0.1)) * 1e9);
          log << " stamp -" << (w.now - stamp) * 1e-9;
        }
        const bool first = r.last_odom == 0;
        const double period = std::max(0.0, std::min(r.max_dt, (stamp - r.last_odom_stamp) * 1e-9));
        Pose real = r.pose;
        if (r.predict && !first)
        {
          // the node extrapolates the pose from the stamp to now
          const double pd = std::max(0.0, std::min(r.max_dt, (w.now - stamp) * 1e-9));
          Pose then = r.pose;
          const Cmd cc = r.last;
          Rig& q = r;
          q.pose = then * Pose{cc.v * pd, 0, cc.w * pd};
          q.odom(stamp, then, cc.v, cc.w);
        }
        else
          r.odom(stamp, r.pose, r.last.v, r.last.w);
        r.last_odom = w.now;
        r.last_odom_stamp = stamp;
        look(period, !first, blackout);
        r.pose = real;
      }
      w.tf_blackout = false;
    }
  }
  c.labelIf(r.use_odom, "odom");
  c.labelIf(far, "far");
  c.labelIf(short_untracked, "shorter_than_min_tracking_path");
  c.labelIf(in_stop, "in_stop_tolerance");
  c.labelIf(in_goal, "in_goal_tolerance");
  c.labelIf(timed_out, "odom_timeout");
  c.labelIf(follows > 0, "straight_following");
  c.labelIf(stopped_after_moving > 0, "stopped_after_moving");
  c.nontrivial(moving >= 3 && events >= 1);
}
}  // namespace

PBT_FACET(limits, 3, "the node driven through random histories of paths (straight, curved, with turns, single, empty, negative velocity), speed settings, parameter changes, robot motions and jumps, lost transforms, lost and disordered odometry; non-trivial when at least three moving commands and one event besides the motion occurred")
{
  history(c, LIMITS);
}
PBT_FACET(stops, 3, "the same histories, judged on stopping, status and remaining distance; non-trivial as above")
{
  history(c, STOPS);
}
PBT_FACET(reach, 2, "closed loop with an ideal robot: paths of straight, curved (radius 1 m or more), reversed and turning-in-place pieces of random density, started near their beginning; the robot follows, reports the goal, stops in the tolerance and follows the next path; interrupted at random by empty paths, lost transforms or odometry; non-trivial when the path is at least 0.5 m long")
{
  Src& s = c.src;
  sim::resetWorld();
  Rig r;
  sim::World& w = r.w;
  pbt::Scribe log(c);
  r.use_odom = s.chance(1, 3);
  r.hz = s.flip() ? 50 : s.irange(25, 60);
  r.predict = s.flip();
  randConfig(s, r.cfg, true);
  r.cfg.max_angvel = std::max(r.cfg.max_angvel, r.cfg.max_vel * 1.3);
  if (s.chance(1, 3))
    r.map_odom = {s.sym(5), s.sym(5), s.sym(M_PI)};
  r.pose = {s.sym(3), s.sym(3), s.sym(M_PI)};
  r.begin(log);
  const double period = 1 / r.hz;
  // One control step of the robot.
  auto step = [&](bool lost)
  {
    r.drive(period, r.last);
    r.tf();
    w.tf_blackout = lost;
    w.advance(period);
    if (r.use_odom && !lost)
      r.odom(w.now, r.pose, r.last.v, r.last.w);
    w.tf_blackout = false;
    r.alive();
    for (; r.seen < r.out->size(); ++r.seen)
      r.last = {(*r.out)[r.seen].second.linear.x, (*r.out)[r.seen].second.angular.z};
  };
  const int paths = s.irange(1, 3);
  double total = 0;
  for (int k = 0; k < paths; ++k)
  {
    // a path of pieces
    Pose at = r.pose;
    at = at * Pose{s.sym(0.1), s.sym(0.1), s.sym(0.3)};
    const double step_len = s.flip() ? 0.05 : s.real(0.03, 0.25);
    const int pieces = s.irange(1, 3);
    std::vector<Pt> p;
    double len = 0, rot = 0;
    double dir = s.chance(1, 3) ? -1 : 1;
    bool need_first = true;
    for (int i = 0; i < pieces; ++i)
    {
      const double l = s.real(0.5, 3.0), curv = s.flip() ? 0 : s.sym(1.0);
      const int n = std::max(2, static_cast<int>(l / step_len));
      for (int j = 0; j <= n; ++j)
      {
        if (j > 0)
          at = at * Pose{dir * step_len, 0, 0} * Pose{0, 0, dir * curv * step_len};
        if (j > 0 || need_first)
          p.push_back(Pt(at, std::numeric_limits<double>::quiet_NaN()));
      }
      need_first = false;
      len += n * step_len;
      const int next = s.weighted({4, 2, 2});
      if (i + 1 < pieces || next == 1)
      {
        if (next == 1)
        {
          const double t = s.sym(M_PI);
          at.a += t;
          rot += std::abs(t);
          p.push_back(Pt(at, std::numeric_limits<double>::quiet_NaN()));
        }
        else if (next == 2)
          dir = -dir;
      }
    }
    total += len;
    std::string f = s.flip() ? "map" : "odom";
    r.frame = f;
    std::vector<Pt> q = p;
    for (auto& e : q)
      static_cast<Pose&>(e) = r.inPathFrame(e);
    if (s.chance(1, 4))
      r.setSpeed(s.real(0.1, 1.0));
    const double vel = std::min(r.speed, r.cfg.max_angvel / 1.3);
    if (vel < r.speed)
      r.setSpeed(vel);
    r.sendPath(q, f, false);
    log << "\npath";
    for (auto& e : p)
      log << " (" << e.x << "," << e.y << "," << e.a << ")";
    const double limit = 10 + 2 * len / r.speed + 3 * pieces * (r.speed / r.cfg.max_acc + 1) + 3 * (rot + M_PI * pieces) / r.cfg.max_angvel + 5 * pieces;
    const int interrupt = s.chance(1, 4) ? s.irange(1, 3) : 0;
    const double when = s.real(0, len / r.speed);
    const int64_t t0 = w.now;
    double worst = 0;
    bool goal = false, interrupted = false, moved = false;
    while (!goal)
    {
      const double t = (w.now - t0) * 1e-9;
      PBT_CHECK(t < limit + (interrupted ? 2 : 0), "not_reached", "no goal after " << t << " s, robot at " << r.pose.x << " " << r.pose.y << " " << r.pose.a << ", status " << r.status->back().second.status << " remaining " << r.status->back().second.distance_remains << " " << r.status->back().second.angle_remains);
      if (interrupt && !interrupted && t >= when)
      {
        interrupted = true;
        log << " interrupt " << interrupt << " at " << t;
        if (interrupt == 1)
        {
          r.sendPath({}, f, false);
          for (int i = 0; i < 3; ++i)
            step(false);
        }
        else
        {
          for (int i = 0; i < 2 + 0.15 * r.hz; ++i)
            step(true);
        }
        PBT_CHECK(r.last.v == 0 && r.last.w == 0, "interrupt_moves", "command " << r.last.v << " " << r.last.w << " after " << (interrupt == 1 ? "an empty path" : "the pose was lost"));
        PBT_CHECK(r.status->back().second.status == Status::NO_PATH, "interrupt_status", "status " << r.status->back().second.status);
        if (interrupt == 1)
          break;
      }
      step(false);
      worst = std::max(worst, stripDist(p, r.pose.x, r.pose.y));
      moved = moved || r.last.v != 0 || r.last.w != 0;
      goal = !r.status->empty() && r.status->back().second.status == Status::GOAL && r.status->back().second.path_header.stamp.toNSec() == r.path_stamp;
    }
    if (!goal)
    {
      log << " stopped";
      continue;
    }
    c.labelIf(interrupted, "resumed");
    log << " reached after " << (w.now - t0) * 1e-9 << " s of " << limit << " worst " << worst;
    PBT_CHECK(moved, "goal_at_once", "goal reported without moving");
    // settle
    for (int i = 0; i < 8 * r.hz && (i < 5 || r.last.v != 0 || r.last.w != 0); ++i)
      step(false);
    PBT_CHECK(r.last.v == 0 && r.last.w == 0, "not_stopped", "still moving after the goal: " << r.last.v << " " << r.last.w);
    PBT_CHECK(r.status->back().second.status == Status::GOAL, "goal_lost", "status " << r.status->back().second.status << " after the goal");
    const Pt& e = p.back();
    const double dx = r.pose.x - e.x, dy = r.pose.y - e.y;
    const bool turn_last = p.size() >= 2 && std::hypot(p[p.size() - 2].x - e.x, p[p.size() - 2].y - e.y) < 1e-3;
    const double lon = std::cos(e.a) * dx + std::sin(e.a) * dy, lat = -std::sin(e.a) * dx + std::cos(e.a) * dy;
    log << " left " << lon << " " << lat << " " << norm(r.pose.a - e.a);
    PBT_CHECK(turn_last || std::abs(lon) < r.cfg.goal_tolerance_dist + 0.05, "goal_position", "stopped " << lon << " m along the path from the goal");
    PBT_CHECK(std::hypot(dx, dy) < 2.1, "goal_position", "stopped " << std::hypot(dx, dy) << " m from the goal");
    PBT_CHECK(angDiff(r.pose.a, e.a) < r.cfg.goal_tolerance_ang + 0.1, "goal_angle", "stopped " << angDiff(r.pose.a, e.a) << " rad from the goal");
    PBT_CHECK(worst < 2.1, "off_path", "the robot left the path by " << worst << " m");
  }
  c.labelIf(r.use_odom, "odom");
  c.nontrivial(total >= 0.5);
}
namespace
{
double clipTo(double v, double l) { return std::max(-l, std::min(l, v)); }
// A straight path from `at`, sampled at random steps.
std::vector<Pt> straightPath(Src& s, const Pose& at, double len, bool back, double vel)
{
  std::vector<Pt> p;
  const double step = s.flip() ? 0.1 : s.real(0.05, 1.5);
  const int n = std::max(1, static_cast<int>(len / step));
  for (int i = 0; i <= n; ++i)
    p.push_back(Pt(at * Pose{len * i / n, 0, back ? M_PI : 0.0}, vel));
  return p;
}
// One control step: the robot moved, the node is called once.
void controlStep(Rig& r, double period)
{
  r.w.advance(period);
  if (r.use_odom)
    r.odom(r.w.now, r.pose, r.last.v, r.last.w);
  r.alive();
}
}  // namespace
PBT_FACET(tracking_law, 2, "a straight path of random place, length and density followed forward or backward with random gains, speeds and limits, the robot being pushed aside at random; each command is compared with the feedback law; non-trivial when at least 20 commands were judged and one was not saturated")
{
  Src& s = c.src;
  sim::resetWorld();
  Rig r;
  sim::World& w = r.w;
  pbt::Scribe log(c);
  r.use_odom = s.chance(1, 3);
  r.hz = s.flip() ? 50 : s.irange(15, 60);
  r.predict = s.flip();
  randConfig(s, r.cfg, false);
  r.cfg.no_position_control_dist = r.cfg.min_tracking_path = 0;
  r.cfg.path_step = s.chance(1, 4) ? s.irange(1, 4) : 1;
  r.cfg.epsilon = 0.001;
  const bool back = s.chance(1, 3);
  r.cfg.allow_backward = back || s.flip();
  if (s.chance(1, 3))
    r.map_odom = {s.sym(5), s.sym(5), s.sym(M_PI)};
  r.begin(log);
  const double len = s.real(2.0, 12.0);
  const Pose origin{s.sym(3), s.sym(3), s.sym(M_PI)};
  const bool with_vel = s.chance(1, 3);
  const double vel = with_vel ? s.real(0.05, 1.0) : std::numeric_limits<double>::quiet_NaN();
  std::vector<Pt> p = straightPath(s, origin, len, back, vel), q = p;
  r.frame = s.flip() ? "map" : "odom";
  for (auto& e : q)
    static_cast<Pose&>(e) = r.inPathFrame(e);
  if (s.chance(1, 4))
    r.setSpeed(s.real(0.05, 1.0));
  const double target = with_vel ? vel : r.speed;
  r.pose = origin * Pose{s.real(0.2, std::min(1.0, len / 2)), s.sym(0.4), s.sym(0.6) + (back ? M_PI : 0.0)};
  if (r.use_odom)
  {
    r.tf();
    r.odom(w.now, r.pose, 0, 0);
  }
  r.sendPath(q, r.frame, with_vel);
  log << "\npath from " << origin.x << "," << origin.y << "," << origin.a << " length " << len << " backward " << back << " speed " << target << " robot " << r.pose.x << "," << r.pose.y << "," << r.pose.a;
  const double period = 1 / r.hz;
  const double dt = r.use_odom ? std::min(period, r.max_dt) : period;
  int judged = 0, free = 0;
  double furthest = 0;
  for (int k = 0; k < 150; ++k)
  {
    r.drive(period, r.last);
    if (s.chance(1, 12))
      r.pose = r.pose * Pose{s.sym(0.05), s.sym(0.2), s.sym(0.3)};
    r.tf();
    r.seen = r.out->size();
    controlStep(r, period);
    PBT_CHECK(r.out->size() == r.seen + 1, "silent", "commands " << r.out->size() - r.seen);
    const auto& t = r.out->back().second;
    const Status& st = r.status->back().second;
    const Pose at = origin.inv() * r.pose;  // in the path's frame: x along, y to the left
    const double th = norm(at.a - (back ? M_PI : 0));
    const double la = r.last.w * r.cfg.look_forward / 2, lv = r.last.v * r.cfg.look_forward;
    const Pose ahead = at * Pose{lv * std::cos(la), lv * std::sin(la), 0};
    log << "\n at " << at.x << "," << at.y << "," << th << " ahead " << ahead.x << "," << ahead.y << " -> " << t.linear.x << "," << t.angular.z << " status " << st.status;
    const double remain = len - ahead.x;
    if (remain < r.cfg.stop_tolerance_dist + 0.05 || ahead.x < 0.05 || ahead.x < furthest - 0.05)
      break;
    furthest = std::max(furthest, ahead.x);
    const double d = ahead.y;
    if (std::abs(d) > r.cfg.dist_stop - 0.01)
      break;
    const bool large = std::abs(r.cfg.rotate_ang) < M_PI && std::abs(th) > r.cfg.rotate_ang;
    if (std::abs(std::abs(th) - r.cfg.rotate_ang) > 0.01)
    {
      ++judged;
      const double dv = r.cfg.max_acc * dt;
      const double sign = back ? -1 : 1;
      const double want_v = large ? 0 : sign * std::min(std::sqrt(2 * r.cfg.max_acc * r.cfg.acc_toc_factor * remain), target);
      const double v = r.last.v + clipTo(want_v - r.last.v, dv);
      PBT_CHECK(std::abs(t.linear.x - v) < 2e-3, "linear", "linear velocity " << t.linear.x << " after " << r.last.v << ", expected " << v << " towards " << want_v);
      if (!large)
      {
        const double k_ang = r.cfg.gain_at_vel == 0 ? r.cfg.k_ang : r.cfg.k_ang * target / r.cfg.gain_at_vel;
        const double inc = dt * (-r.cfg.k_dist * clipTo(d, r.cfg.dist_lim) - k_ang * th - r.cfg.k_avel * r.last.w);
        const double wl = r.cfg.max_angvel, dw = r.cfg.max_angacc * dt;
        const double want = clipTo(r.last.w + inc, wl);
        const double wz = r.last.w + clipTo(want - r.last.w, dw);
        free += std::abs(inc) < dw && std::abs(want) < wl && std::abs(inc) > 1e-4;
        const double slack = 1e-3 + 1e-3 * std::abs(inc) + 2e-3 * dt * (r.cfg.k_dist + k_ang);
        PBT_CHECK(std::abs(t.angular.z - wz) < slack, "angular", "angular velocity " << t.angular.z << " after " << r.last.w << ", expected " << wz << " for lateral error " << d << " heading error " << th);
      }
      else
      {
        // turns towards the path
        if (r.last.v == 0 && r.last.w == 0 && std::abs(th) < 3.0)
          PBT_CHECK(t.angular.z * th <= 0, "turn", "turns " << t.angular.z << " with the heading error " << th);
      }
    }
    r.last = {t.linear.x, t.angular.z};
  }
  c.labelIf(back, "backward");
  c.nontrivial(judged >= 20 && free > 0);
}
PBT_FACET(tracking_arc, 2, "a circular path of random radius and density followed forward or backward with random gains and limits, the robot being pushed aside at random; each command is compared with the feedback law including the turning rate of the path; non-trivial when at least 20 commands were judged and one was not saturated")
{
  Src& s = c.src;
  sim::resetWorld();
  Rig r;
  sim::World& w = r.w;
  pbt::Scribe log(c);
  r.use_odom = s.chance(1, 3);
  r.hz = s.flip() ? 50 : s.irange(15, 60);
  r.predict = s.flip();
  randConfig(s, r.cfg, false);
  r.cfg.no_position_control_dist = r.cfg.min_tracking_path = 0;
  r.cfg.path_step = 1;
  r.cfg.epsilon = 0.001;
  if (s.flip())
    r.cfg.max_angvel = s.real(0.05, 0.5);  // so that the speed has to be limited
  const bool back = s.chance(1, 3);
  r.cfg.allow_backward = back || s.flip();
  if (s.chance(1, 3))
    r.map_odom = {s.sym(5), s.sym(5), s.sym(M_PI)};
  r.begin(log);
  double curv = (s.flip() ? 1 : -1) / s.real(0.8, 6.0), radius = 1 / curv;
  const double step = s.pick({0.05, 0.1, 0.3}), len = s.real(2.0, 10.0);
  int n = 0;
  Pose origin{s.sym(3), s.sym(3), s.sym(M_PI)};
  const auto on = [&](double l)
  { return origin * Pose{std::sin(l * curv) * radius, (1 - std::cos(l * curv)) * radius, l * curv}; };
  std::vector<Pt> p, q;
  r.frame = s.flip() ? "map" : "odom";
  const auto send = [&]
  {
    p.clear();
    n = std::max(4, static_cast<int>(std::min(len, 4.0 * std::abs(radius)) / step));
    for (int i = 0; i <= n; ++i)
      p.push_back(Pt(on(i * step) * Pose{0, 0, back ? M_PI : 0.0}, std::numeric_limits<double>::quiet_NaN()));
    q = p;
    for (auto& e : q)
      static_cast<Pose&>(e) = r.inPathFrame(e);
    r.sendPath(q, r.frame, false);
    log << "\narc from " << origin.x << "," << origin.y << "," << origin.a << " curvature " << curv << " step " << step << " x" << n << " backward " << back << " speed " << r.speed << " robot " << r.pose.x << "," << r.pose.y << "," << r.pose.a;
  };
  if (s.chance(1, 4))
    r.setSpeed(s.real(0.05, 1.0));
  const double target = r.speed;
  r.pose = on(s.real(0.2, 0.6)) * Pose{0, s.sym(0.3), s.sym(0.4) + (back ? M_PI : 0.0)};
  if (r.use_odom)
  {
    r.tf();
    r.odom(w.now, r.pose, 0, 0);
  }
  send();
  const double period = 1 / r.hz;
  const double dt = r.use_odom ? std::min(period, r.max_dt) : period;
  int judged = 0, free = 0, limited = 0;
  int furthest = 0;
  for (int k = 0; k < 150; ++k)
  {
    r.drive(period, r.last);
    if (s.chance(1, 12))
      r.pose = r.pose * Pose{s.sym(0.05), s.sym(0.1), s.sym(0.2)};
    if (s.chance(1, 60))
    {
      curv = (s.flip() ? 1 : -1) / s.real(0.8, 6.0), radius = 1 / curv;
      origin = r.pose * Pose{0, 0, back ? M_PI : 0.0};
      origin = origin * Pose{-s.real(0.2, 0.6), s.sym(0.1), s.sym(0.2)};
      furthest = 0;
      send();
    }
    r.tf();
    r.seen = r.out->size();
    controlStep(r, period);
    PBT_CHECK(r.out->size() == r.seen + 1, "silent", "commands " << r.out->size() - r.seen);
    const auto& t = r.out->back().second;
    const double la = r.last.w * r.cfg.look_forward / 2, lv = r.last.v * r.cfg.look_forward;
    const Pose ahead = r.pose * Pose{lv * std::cos(la), lv * std::sin(la), 0};
    // the nearest piece, when there is no doubt
    int best = -1;
    double best_d = 1e9, second = 1e9, at = 0;
    std::vector<double> dists;
    for (int i = 0; i < n; ++i)
    {
      const double dx = p[i + 1].x - p[i].x, dy = p[i + 1].y - p[i].y, l2 = dx * dx + dy * dy;
      const double f = ((ahead.x - p[i].x) * dx + (ahead.y - p[i].y) * dy) / l2, e = std::min(1.0, std::max(0.0, f));
      const double d = std::hypot(ahead.x - p[i].x - e * dx, ahead.y - p[i].y - e * dy);
      dists.push_back(d);
      if (d < best_d)
      {
        second = best_d;
        best_d = d;
        best = i;
        at = f;
      }
      else
        second = std::min(second, d);
    }
    const double ux = (p[best + 1].x - p[best].x) / step, uy = (p[best + 1].y - p[best].y) / step, un = std::hypot(ux, uy);
    const double d = (ux * (ahead.y - p[best].y) - uy * (ahead.x - p[best].x)) / un;
    const double th = norm(r.pose.a - (back ? M_PI : 0) - std::atan2(uy, ux));
    double remain = 0;
    for (int i = best; i < n; ++i)
      remain += std::hypot(p[i + 1].x - p[i].x, p[i + 1].y - p[i].y) * (i == best ? 1 - at : 1);
    log << "\n at " << r.pose.x << "," << r.pose.y << "," << r.pose.a << " piece " << best << "+" << at << " off " << d << "," << th << " -> " << t.linear.x << "," << t.angular.z;
    if (best + 4 > n || best_d > r.cfg.dist_stop - 0.01 || remain < r.cfg.stop_tolerance_dist + 0.05 || best_d > 0.5 * std::abs(radius))
      break;
    // the tracker never goes back to a piece it has left, and of pieces equally near it may take any
    const bool ahead_of = best >= furthest;
    for (int i = 0; i < n; ++i)
      if (dists[i] < best_d + 2e-3)
        furthest = std::max(furthest, i);
    const bool large = std::abs(r.cfg.rotate_ang) < M_PI && std::abs(th) > r.cfg.rotate_ang;
    // the first piece begins at the path's second pose until the robot is on it
    if (ahead_of && at > 0.02 && at < 0.98 && second > best_d + 2e-3 && best >= 1 && !large && std::abs(std::abs(th) - r.cfg.rotate_ang) > 0.01 && std::abs(th) < 1.5)
    {
      const double dv = r.cfg.max_acc * dt, wl = r.cfg.max_angvel, dw = r.cfg.max_angacc * dt, sign = back ? -1 : 1;
      const double want_v = sign * std::min(std::sqrt(2 * r.cfg.max_acc * r.cfg.acc_toc_factor * remain), target);
      double v = r.last.v + clipTo(want_v - r.last.v, dv);
      double wref = std::abs(v) * curv;
      const bool unsure = r.cfg.limit_vel_by_avel && std::abs(std::abs(wref) - wl) < 2e-3;
      if (!unsure)
      {
        ++judged;
        if (r.cfg.limit_vel_by_avel && std::abs(wref) > wl)
        {
          const double sv = v < 0 ? -1 : 1;
          v = r.last.v + clipTo(clipTo(sv * wl / std::abs(curv), target) - r.last.v, dv);
          wref = wref < 0 ? -wl : wl;
          ++limited;
        }
        PBT_CHECK(std::abs(t.linear.x - v) < 3e-3, "linear", "linear velocity " << t.linear.x << " after " << r.last.v << ", expected " << v << " towards " << want_v);
        const double k_ang = r.cfg.gain_at_vel == 0 ? r.cfg.k_ang : r.cfg.k_ang * target / r.cfg.gain_at_vel;
        const double inc = dt * (-r.cfg.k_dist * clipTo(d, r.cfg.dist_lim) - k_ang * th - r.cfg.k_avel * (r.last.w - wref));
        const double want = clipTo(r.last.w + inc, wl), wz = r.last.w + clipTo(want - r.last.w, dw);
        free += std::abs(inc) < dw && std::abs(want) < wl && std::abs(inc) > 1e-4;
        const double slack = 1e-3 + 1e-3 * std::abs(inc) + 3e-3 * dt * (r.cfg.k_dist + k_ang + r.cfg.k_avel);
        PBT_CHECK(std::abs(t.angular.z - wz) < slack, "angular", "angular velocity " << t.angular.z << " after " << r.last.w << ", expected " << wz << " for lateral error " << d << " heading error " << th << " turning rate " << wref);
      }
    }
    r.last = {t.linear.x, t.angular.z};
  }
  c.labelIf(back, "backward");
  c.labelIf(limited, "speed limited by the turning rate");
  c.nontrivial(judged >= 20 && free > 0);
}
PBT_FACET(converge, 1, "a straight or circular path (radius 2.4 m or more) followed with stable gains from beside the path; the robot converges onto it and stays there; always non-trivial")
{
  Src& s = c.src;
  sim::resetWorld();
  Rig r;
  sim::World& w = r.w;
  pbt::Scribe log(c);
  r.use_odom = s.chance(1, 3);
  r.hz = s.irange(25, 50);
  r.predict = s.flip();
  Config& g = r.cfg;
  const double vel = g.max_vel = s.real(0.2, 0.6);
  g.max_angvel = s.real(1.0, 2.0);
  g.max_angacc = s.real(1.5, 4.0);
  g.max_acc = s.real(0.5, 2.0);
  g.k_dist = s.real(1.0, 3.0);
  g.k_ang = s.real(0.75, 1.5) * g.k_dist;
  g.k_avel = s.real(1.0, 3.0);
  g.look_forward = s.real(0.2, 0.5);
  g.gain_at_vel = s.flip() ? 0 : vel * s.real(0.6, 1.4);
  if (g.gain_at_vel > 0)
    g.k_ang *= g.gain_at_vel / vel;
  g.limit_vel_by_avel = s.flip();
  const bool back = s.chance(1, 3);
  const double len = s.real(12, 16), step = s.real(0.03, 0.15);
  const double curv = s.flip() ? 0 : s.sym(5 / len);  // less than a full circle
  r.map_odom = {s.sym(5), s.sym(5), s.sym(M_PI)};
  r.begin(log);
  Pose at{s.sym(3), s.sym(3), s.sym(M_PI)};
  const Pose origin = at;
  std::vector<Pt> p, q;
  for (double l = 0; l < len; l += step)
  {
    p.push_back(Pt(at * Pose{0, 0, back ? M_PI : 0.0}, 0));
    at = at * Pose{0, 0, curv * step / 2} * Pose{step, 0, curv * step / 2};
  }
  r.frame = s.flip() ? "map" : "odom";
  for (auto e : p)
    q.push_back(Pt(r.inPathFrame(e), 0));
  r.pose = origin * Pose{s.sym(0.2), s.sym(0.3), s.sym(0.4) + (back ? M_PI : 0.0)};
  if (r.use_odom)
  {
    r.tf();
    r.odom(w.now, r.pose, 0, 0);
  }
  r.sendPath(q, r.frame, false);
  log << "\ncurvature " << curv << " length " << len << " step " << step << " backward " << back << " robot at " << origin.inv().x;
  const double period = 1 / r.hz;
  double worst = 0, worst_a = 0, travelled = 0, slowest = 9;
  const double limit = len / vel * 1.5 + 10;
  const int64_t t0 = w.now;
  for (int k = 0;; ++k)
  {
    PBT_CHECK((w.now - t0) * 1e-9 < limit, "slow", "not at the end after " << limit << " s, travelled " << travelled);
    r.drive(period, r.last);
    travelled += std::abs(r.last.v) * period;
    r.tf();
    controlStep(r, period);
    r.last = {r.out->back().second.linear.x, r.out->back().second.angular.z};
    const double rem = std::hypot(r.pose.x - p.back().x, r.pose.y - p.back().y);
    if (travelled > 9)
    {
      if (travelled > len - 1.5)
        break;
      slowest = std::min(slowest, std::abs(r.last.v));
      worst = std::max(worst, stripDist(p, r.pose.x, r.pose.y));
      double best = 9, a = 0;
      for (auto& e : p)
        if (std::hypot(e.x - r.pose.x, e.y - r.pose.y) < best)
        {
          best = std::hypot(e.x - r.pose.x, e.y - r.pose.y);
          a = e.a;
        }
      worst_a = std::max(worst_a, angDiff(a, r.pose.a));
    }
    (void)rem;
  }
  log << "\nworst " << worst << " angle " << worst_a << " slowest " << slowest;
  const double tol = curv == 0 ? 0.03 : 0.15, tol_a = curv == 0 ? 0.05 : 0.15;
  PBT_CHECK(worst < tol, "lateral", "still " << worst << " m from the path after 9 m");
  PBT_CHECK(worst_a < tol_a, "heading", "still " << worst_a << " rad off the path's direction after 9 m");
  PBT_CHECK(slowest > vel * 0.99, "speed", "slows down to " << slowest << " m/s from " << vel);
  c.nontrivial();
}
namespace
{
struct Said
{
  double v, w, dist, ang;
  int status;
};
struct Script
{
  Rig base;
  std::vector<Pt> path;
  bool with_vel;
  std::vector<Pose> poses;        // robot pose at each step, filled by the first run
  std::vector<Pose> pushes;
};
// kind 0: as is, 1: moved by `t`, 2: mirrored, 3: driven the other way around
std::vector<Said> play(Script& sc, int kind, const Pose& t, bool record, std::ostream& log)
{
  sim::resetWorld();
  Rig r;
  r.cfg = sc.base.cfg;
  r.use_odom = sc.base.use_odom;
  r.hz = sc.base.hz;
  r.predict = sc.base.predict;
  r.timeout = 0;
  auto map = [&](const Pose& p) -> Pose
  {
    if (kind == 1)
      return t * p;
    if (kind == 2)
      return {p.x, -p.y, -p.a};
    if (kind == 3)
      return {p.x, p.y, p.a + M_PI};
    return p;
  };
  r.pose = map(sc.poses[0]);
  r.begin(log);
  sim::World& w = r.w;
  if (r.use_odom)
  {
    r.tf();
    r.odom(w.now, r.pose, 0, 0);
  }
  std::vector<Pt> p = sc.path;
  for (auto& e : p)
    static_cast<Pose&>(e) = map(e);
  r.sendPath(p, "odom", sc.with_vel);
  const double period = 1 / r.hz;
  std::vector<Said> out;
  for (size_t k = 0; k < sc.pushes.size(); ++k)
  {
    if (record)
    {
      r.drive(period, r.last);
      r.pose = r.pose * sc.pushes[k];
      sc.poses.push_back(r.pose);
    }
    else
      r.pose = map(sc.poses[k + 1]);
    r.tf();
    controlStep(r, period);
    const auto& c = r.out->back().second;
    const auto& st = r.status->back().second;
    const bool rev = kind == 3, mir = kind == 2;
    out.push_back({rev ? -c.linear.x : c.linear.x, mir ? -c.angular.z : c.angular.z, st.distance_remains, mir ? -st.angle_remains : st.angle_remains, static_cast<int>(st.status)});
    r.last = {c.linear.x, c.angular.z};
  }
  w.stop();
  return out;
}
int differs(const std::vector<Said>& a, const std::vector<Said>& b)
{
  for (size_t i = 0; i < a.size(); ++i)
    if (std::abs(a[i].v - b[i].v) > 2e-3 || std::abs(a[i].w - b[i].w) > 2e-3 || std::abs(a[i].dist - b[i].dist) > 2e-3 || angDiff(a[i].ang, b[i].ang) > 2e-3 || a[i].status != b[i].status)
      return i;
  return -1;
}
}  // namespace
PBT_FACET(symmetry, 1, "random path, configuration and disturbed motion, replayed at another place and direction, mirrored, or with robot and path turned around: the commands are the same, mirrored, or reversed; non-trivial when the robot moved in at least ten steps")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  Script sc;
  Rig& r = sc.base;
  r.use_odom = s.chance(1, 3);
  r.hz = s.flip() ? 50 : s.irange(15, 60);
  r.predict = s.flip();
  randConfig(s, r.cfg, s.flip());
  const int kind = s.irange(1, 3);
  if (kind == 3)
    r.cfg.allow_backward = true;
  const Pose start{s.sym(3), s.sym(3), s.sym(M_PI)};
  sc.path = randPath(s, start, s.weighted({3, 3, 3}));
  sc.with_vel = s.flip();
  sc.poses.push_back(start * Pose{s.sym(0.2) + 0.0137, s.sym(0.2) + 0.0071, s.sym(0.4) + 0.0113});
  const int n = s.irange(10, 120);
  for (int i = 0; i < n; ++i)
    sc.pushes.push_back(s.chance(1, 15) ? Pose{s.sym(0.05), s.sym(0.1), s.sym(0.3)} : Pose{});
  const Pose t{s.sym(5), s.sym(5), s.sym(M_PI)};
  std::ostringstream quiet;
  const auto a = play(sc, 0, t, true, log);
  const auto b = play(sc, kind, t, false, quiet);
  log << "path";
  for (auto& e : sc.path)
    log << " (" << e.x << "," << e.y << "," << e.a << "," << e.vel << ")";
  log << "\nkind " << kind << " by " << t.x << "," << t.y << "," << t.a << "\n";
  int moved = 0;
  for (size_t i = 0; i < a.size(); ++i)
  {
    moved += a[i].v != 0 || a[i].w != 0;
    log << i << " (" << sc.poses[i + 1].x << "," << sc.poses[i + 1].y << "," << sc.poses[i + 1].a << ") " << a[i].v << "," << a[i].w << "," << a[i].dist << "," << a[i].ang << "," << a[i].status << " | " << b[i].v << "," << b[i].w << "," << b[i].dist << "," << b[i].ang << "," << b[i].status << "\n";
  }
  const int d = differs(a, b);
  if (d >= 0)
  {
    // A decision on the edge is no matter of symmetry.
    uint32_t seed = 1;
    auto tiny = [&]
    {
      seed = seed * 1664525u + 1013904223u;
      return (static_cast<int>(seed >> 16 & 255) - 127) * 1e-7;
    };
    for (int i = 0; i < 8; ++i)
    {
      Script sp = sc;
      for (auto& q : sp.poses)
      {
        const double e[3] = {tiny(), tiny(), tiny()};
        q = i ? q * Pose{e[0], e[1], e[2]} : q;
      }
      if (differs(a, play(sp, 0, t, false, quiet)) >= 0)
      {
        c.label("on_the_edge");
        return;
      }
    }
    PBT_CHECK(false, kind == 1 ? "moved" : kind == 2 ? "mirrored" : "reversed", "step " << d << ": " << a[d].v << "," << a[d].w << " remaining " << a[d].dist << "," << a[d].ang << " status " << a[d].status << " became " << b[d].v << "," << b[d].w << " remaining " << b[d].dist << "," << b[d].ang << " status " << b[d].status);
  }
  c.nontrivial(moved >= 10);
}
