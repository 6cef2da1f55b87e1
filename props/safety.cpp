// S01-S03: the safety_limiter node on the simulated graph.
#include <pbt.h>
#include <algorithm>
#include <cmath>
#include <deque>
#include <diagnostic_msgs/DiagnosticArray.h>
#include <geometry_msgs/Twist.h>
#include <safety_limiter/SafetyLimiterConfig.h>
#include <safety_limiter_msgs/SafetyLimiterStatus.h>
#include <sensor_msgs/PointCloud.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
#include <std_msgs/Bool.h>
#include <std_msgs/Empty.h>
#include <dynamic_reconfigure/server.h>
#include <sim/world.h>

int safety_limiter_main(int argc, char** argv);
namespace
{
using pbt::Ctx;
using pbt::Src;
struct P2
{
  double x, y;
};
struct P3
{
  double x, y, z;
};
struct Pose
{
  double x = 0, y = 0, a = 0, roll = 0, pitch = 0, z = 0;
  void rot(double (&m)[3][3]) const
  {
    const double cy = std::cos(a), sy = std::sin(a), cp = std::cos(pitch), sp = std::sin(pitch), cr = std::cos(roll), sr = std::sin(roll);
    const double v[3][3] = {{cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr}, {sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr}, {-sp, cp * sr, cp * cr}};
    for (int i = 0; i < 9; ++i)
      m[i / 3][i % 3] = v[i / 3][i % 3];
  }
  P3 toWorld(const P3& p) const
  {
    double m[3][3];
    rot(m);
    return {x + m[0][0] * p.x + m[0][1] * p.y + m[0][2] * p.z, y + m[1][0] * p.x + m[1][1] * p.y + m[1][2] * p.z, z + m[2][0] * p.x + m[2][1] * p.y + m[2][2] * p.z};
  }
  P3 toLocal(const P3& p) const
  {
    double m[3][3];
    rot(m);
    const double dx = p.x - x, dy = p.y - y, dz = p.z - z;
    return {m[0][0] * dx + m[1][0] * dy + m[2][0] * dz, m[0][1] * dx + m[1][1] * dy + m[2][1] * dz, m[0][2] * dx + m[1][2] * dy + m[2][2] * dz};
  }
  void quat(double (&q)[4]) const
  {
    const double cy = std::cos(a / 2), sy = std::sin(a / 2), cp = std::cos(pitch / 2), sp = std::sin(pitch / 2), cr = std::cos(roll / 2), sr = std::sin(roll / 2);
    q[0] = sr * cp * cy - cr * sp * sy;
    q[1] = cr * sp * cy + sr * cp * sy;
    q[2] = cr * cp * sy - sr * sp * cy;
    q[3] = cr * cp * cy + sr * sp * sy;
  }
};
// Signed distance to a polygon, negative inside.
double signedDist(const std::vector<P2>& poly, const P2& p)
{
  bool in = false;
  double best = 1e9;
  for (size_t i = 0, j = poly.size() - 1; i < poly.size(); j = i++)
  {
    const P2 &a = poly[j], &b = poly[i];
    if ((a.y > p.y) != (b.y > p.y) && p.x < (b.x - a.x) * (p.y - a.y) / (b.y - a.y) + a.x)
      in = !in;
    const double lx = b.x - a.x, ly = b.y - a.y, l2 = lx * lx + ly * ly;
    double t = l2 > 0 ? ((p.x - a.x) * lx + (p.y - a.y) * ly) / l2 : 0;
    t = std::max(0.0, std::min(1.0, t));
    best = std::min(best, std::hypot(p.x - a.x - t * lx, p.y - a.y - t * ly));
  }
  return in ? -best : best;
}
std::vector<P2> randFootprint(Src& s, bool rect_only)
{
  std::vector<P2> f;
  if (rect_only || s.flip())
  {
    const double l = s.real(0.15, 0.5), w = s.real(0.15, 0.4), o = s.chance(1, 3) ? s.sym(0.3) : 0;
    f = {{l + o, -w}, {l + o, w}, {o - l, w}, {o - l, -w}};
  }
  else
  {
    const int n = s.range(3, 8);
    for (int i = 0; i < n; ++i)
    {
      const double r = s.real(0.2, 0.6), a = 2 * M_PI * i / n;
      f.push_back({r * std::cos(a), r * std::sin(a)});
    }
  }
  if (s.flip())
    std::reverse(f.begin(), f.end());
  return f;
}
struct Rig
{
  sim::World& w = sim::world();
  safety_limiter::SafetyLimiterConfig cfg;
  std::vector<P2> foot;
  bool compat = false;
  double watchdog = 0;
  std::shared_ptr<std::vector<std::pair<ros::Time, geometry_msgs::Twist>>> out;
  std::shared_ptr<std::vector<std::pair<ros::Time, safety_limiter_msgs::SafetyLimiterStatus>>> status;
  Pose pose, sensor;
  std::deque<std::pair<int64_t, Pose>> tf_log;
  std::string pre() const { return compat ? "/safety_limiter/" : "/"; }
  void begin(std::ostream& log)
  {
    auto set = [&](const char* k, const XmlRpc::XmlRpcValue& v)
    { w.setParam(std::string("/safety_limiter/") + k, v); };
    w.setParam("/neonavigation_compatible", compat ? 0 : 1);
    struct Put
    {
      decltype(set)& s;
      std::ostream& o;
      void operator()(const char* n, double& v, double, double) const { s(n, v); o << n << "=" << v << " "; }
      void operator()(const char* n, bool& v) const { s(n, v); o << n << "=" << v << " "; }
    };
    cfg.forEachParam(Put{set, log});
    XmlRpc::XmlRpcValue fp;
    for (size_t i = 0; i < foot.size(); ++i)
    {
      fp[i][0] = foot[i].x;
      fp[i][1] = foot[i].y;
      log << "(" << foot[i].x << "," << foot[i].y << ")";
    }
    set("footprint", fp);
    if (watchdog > 0)
      set("watchdog_interval", watchdog);
    log << " watchdog=" << watchdog << "\n";
    out = w.listen<geometry_msgs::Twist>(compat ? "/safety_limiter/cmd_vel_out" : "/cmd_vel");
    status = w.listen<safety_limiter_msgs::SafetyLimiterStatus>("/safety_limiter/status");
    w.taps.push_back([last = std::make_shared<std::shared_ptr<safety_limiter_msgs::SafetyLimiterStatus>>()](const std::string& topic, const sim::AnyMsg& a, bool from_node)
                     {
      if (!from_node)
        return;
      if (topic == "/safety_limiter/status")
        *last = std::make_shared<safety_limiter_msgs::SafetyLimiterStatus>(*static_cast<const safety_limiter_msgs::SafetyLimiterStatus*>(a.ptr.get()));
      if (topic != "/diagnostics" || !*last)
        return;
      for (auto& d : static_cast<const diagnostic_msgs::DiagnosticArray*>(a.ptr.get())->status)
      {
        const auto& st = **last;
        const bool lost = !st.is_cloud_available || st.has_watchdog_timed_out;
        const int level = lost ? 2 : st.limit_ratio == 1.0f || st.limit_ratio >= 1.01e-2f ? 0 : st.limit_ratio < 0.99e-6f ? 1 : -1;
        PBT_CHECK(level < 0 || d.level == level, "diagnostics", "level " << int(d.level) << " with limit " << st.limit_ratio << ", cloud " << int(st.is_cloud_available) << ", watchdog loss " << int(st.has_watchdog_timed_out));
      } });
    const double p[3] = {sensor.x, sensor.y, sensor.z};
    double q[4];
    sensor.quat(q);
    w.setTf("base_link", "sensor", 0, p, q, true);
    tf();
    w.start([]
            { char n[] = "n"; char* a[] = {n, nullptr}; return safety_limiter_main(1, a); });
    w.settle();
    PBT_CHECK(!w.crashed, "crash", w.crash_what);
  }
  void tf()
  {
    const double p[3] = {pose.x, pose.y, pose.z};
    double q[4];
    pose.quat(q);
    w.setTf("odom", "base_link", w.now, p, q, false);
    if (!tf_log.empty() && tf_log.back().first == w.now)
      tf_log.pop_back();
    tf_log.push_back({w.now, pose});
    while (tf_log.size() > 60)
      tf_log.pop_front();
  }
  void cloud(const std::vector<P3>& pts, const std::string& frame, int64_t stamp, bool no_data = false)
  {
    sensor_msgs::PointCloud2 m;
    m.header.frame_id = frame;
    m.header.stamp.fromNSec(stamp);
    if (!no_data)
    {
      sensor_msgs::PointCloud2Modifier mod(m);
      mod.setPointCloud2FieldsByString(1, "xyz");
      mod.resize(pts.size());
      m.width = pts.size();
      m.height = 1;
      m.is_dense = true;
      sensor_msgs::PointCloud2Iterator<float> x(m, "x"), y(m, "y"), z(m, "z");
      for (auto& p : pts)
      {
        *x = p.x;
        *y = p.y;
        *z = p.z;
        ++x, ++y, ++z;
      }
    }
    w.publish(pre() + "cloud", m);
    w.settle();
  }
  void twist(double vx, double vy, double wz)
  {
    geometry_msgs::Twist t;
    t.linear.x = vx;
    t.linear.y = vy;
    t.angular.z = wz;
    w.publish(pre() + "cmd_vel_in", t);
    w.settle();
  }
  void disable(bool v)
  {
    std_msgs::Bool b;
    b.data = v;
    w.publish(pre() + (compat ? "disable" : "disable_safety"), b);
    w.settle();
  }
  void kick()
  {
    w.publish(pre() + "watchdog_reset", std_msgs::Empty());
    w.settle();
  }
};
void randConfig(Src& s, safety_limiter::SafetyLimiterConfig& c)
{
  if (s.flip())
    c.freq = s.range(2, 20);
  if (s.flip())
    c.cloud_timeout = s.real(0.1, 2.0);
  if (s.flip())
    c.disable_timeout = s.real(0.02, 1.0);
  if (s.flip())
    c.lin_vel = s.real(0.2, 1.5);
  if (s.flip())
    c.lin_acc = s.real(0.3, 2.0);
  if (s.flip())
    c.ang_vel = s.real(0.2, 2.0);
  if (s.flip())
    c.ang_acc = s.real(0.3, 3.0);
  if (s.chance(1, 3))
    c.max_linear_vel = s.chance(1, 5) ? 0.0 : s.real(0.05, 1.0);
  if (s.chance(1, 3))
    c.max_angular_vel = s.chance(1, 5) ? 0.0 : s.real(0.05, 1.0);
  if (s.chance(1, 3))
    c.z_range_min = s.real(-0.5, 0.3);
  if (s.chance(1, 3))
    c.z_range_max = c.z_range_min + s.real(0.1, 1.0);
  if (c.z_range_max <= c.z_range_min)
    c.z_range_max = c.z_range_min + 0.5;
  if (s.flip())
    c.dt = s.real(0.03, 0.2);
  if (s.flip())
    c.d_margin = s.chance(1, 5) ? 0.0 : s.real(0.0, 0.4);
  if (s.flip())
    c.yaw_margin = s.chance(1, 5) ? 0.0 : s.real(0.0, 0.4);
  if (s.flip())
    c.d_escape = s.chance(1, 5) ? 0.0 : s.real(0.01, 0.2);
  if (s.flip())
    c.yaw_escape = s.chance(1, 5) ? 0.0 : s.real(0.01, 0.2);
  if (s.flip())
    c.downsample_grid = s.real(0.01, 0.1);
  if (s.chance(1, 3))
    c.hold = s.real(0.0, 1.0);
  c.allow_empty_cloud = s.chance(1, 4);
}
struct Show
{
  std::ostream& o;
  template <class T, class... R>
  void operator()(const char* n, T& v, R...) const
  {
    o << " " << n << "=" << v;
  }
};
int64_t nsGap(Src& s, double hi)
{
  return static_cast<int64_t>(s.draw(static_cast<uint64_t>(hi * 1e6))) * 1000;
}
struct Range
{
  double lo, hi;
};
// Every outcome the documented prediction may have, given that a point nearer
// than eps to the footprint's edge counts either way.
struct Predict
{
  const safety_limiter::SafetyLimiterConfig& c;
  const std::vector<P2>& foot;
  std::vector<P3> pts;  // in the base frame, height filtered
  std::vector<P3> unsure;  // at the edge of the height filter
  double vx, vy, wz, eps;
  double lin = 0, tmax = 0;
  double lo = 1e9, hi = -1e9;
  int leaves = 0;
  bool overflow = false, at_start = false;
  std::vector<int> touch;  // -1 unknown yet, 0 no, 1 yes, 2 either
  int state(size_t k)
  {
    while (touch.size() <= k)
      touch.push_back(-1);
    if (touch[k] >= 0)
      return touch[k];
    double x = 0, y = 0, a = 0;
    for (size_t i = 0; i < k; ++i)
    {
      x += std::cos(a) * vx * c.dt - std::sin(a) * vy * c.dt;
      y += std::sin(a) * vx * c.dt + std::cos(a) * vy * c.dt;
      a += wz * c.dt;
    }
    Pose p;
    p.x = x;
    p.y = y;
    p.a = a;
    int r = 0;
    for (const auto& q : pts)
    {
      const P3 l = p.toLocal(q);
      const double d = signedDist(foot, {l.x, l.y});
      if (d < -eps)
      {
        r = 1;
        break;
      }
      if (d < eps)
        r = 2;
    }
    for (const auto& q : unsure)
    {
      const P3 l = p.toLocal(q);
      if (r == 0 && signedDist(foot, {l.x, l.y}) < eps)
        r = 2;
    }
    return touch[k] = r;
  }
  void leaf(double r)
  {
    lo = std::min(lo, r);
    hi = std::max(hi, r);
    ++leaves;
  }
  double ratio(double d_col, double yaw_col, double slack) const
  {
    const double delay = 1.0 / c.freq + c.dt;
    auto comp = [&](double d, double margin, double acc)
    {
      d = std::max(0.0, std::abs(d) + slack);
      const double k = acc * delay * delay;
      return std::max(0.0, d - margin + k - std::sqrt(k * k + 2 * k * d) + slack);
    };
    const double dl = comp(d_col, c.d_margin, c.lin_acc), dy = comp(yaw_col, c.yaw_margin, c.ang_acc);
    const double rl = lin > 0 ? std::sqrt(2 * c.lin_acc * dl) / lin : 1.0;
    const double ry = wz != 0 ? std::sqrt(2 * c.ang_acc * dy) / std::abs(wz) : 1.0;
    return std::min(rl, ry);
  }
  void walk(size_t k, double d_col, double yaw_col, double d_rem, double y_rem, bool now)
  {
    if (leaves > 200)
    {
      overflow = true;
      return;
    }
    const double t = k * c.dt;
    if (t > tmax + 1e-4)
    {
      leaf(1.0);
      return;
    }
    if (std::abs(t - tmax) <= 1e-4)
      leaf(1.0);
    if (k > 0)
    {
      d_col += lin * c.dt;
      d_rem -= lin * c.dt;
      yaw_col += wz * c.dt;
      y_rem -= std::abs(wz) * c.dt;
    }
    const int st = state(k);
    if (st != 1)
      walk(k + 1, d_col, yaw_col, d_rem, y_rem, now);
    if (st != 0)
    {
      const double dc = d_col - lin * c.dt, yc = yaw_col - wz * c.dt;
      if (k == 0)
      {
        d_rem = c.d_escape;
        y_rem = c.yaw_escape;
        now = true;
        at_start = true;
      }
      const double m = std::min(d_rem, y_rem);
      const bool exact = k == 0;
      if (m <= (exact ? 0.0 : 1e-4))
      {
        const double d = now ? 0 : dc, y = now ? 0 : yc;
        leaf(ratio(d, y, -1e-4));
        leaf(std::min(1e9, ratio(d, y, 1e-4)));
      }
      if (m > (exact ? 0.0 : -1e-4))
        walk(k + 1, dc, yc, d_rem, y_rem, now);
    }
  }
  Range run()
  {
    lin = std::hypot(vx, vy);
    tmax = 1.5 * std::max(c.lin_vel / c.lin_acc, c.ang_vel / c.ang_acc) + std::max(c.d_margin / c.lin_vel, c.yaw_margin / c.ang_vel);
    walk(0, 0, 0, 0, 0, false);
    return {lo, hi};
  }
};
struct Model
{
  const Rig& r;
  struct Cloud
  {
    std::vector<P3> world;
    int64_t stamp;
  };
  bool has_cloud = false, clear = false;
  int64_t last_stamp = 0, hold_lo = 0, hold_hi = 0, accum_stamp = 0;
  std::vector<P3> accum;  // in the fixed frame
  double tx = 0, ty = 0, tw = 0;
  Range rl{1, 1};
  bool start_collision = false, tilted = false;
  int now_hit = 2;            // whether the latest prediction began in a collision (2: not known)
  int64_t hit_since = -1;     // since when every prediction did for certain
  explicit Model(const Rig& rig) : r(rig) {}
  Pose at(int64_t stamp) const
  {
    // transforms are made at every stamp a cloud can have
    for (auto& e : r.tf_log)
      if (e.first == stamp)
        return e.second;
    return r.tf_log.back().second;
  }
  void cloud(const std::vector<P3>& local, const std::string& frame, int64_t stamp, bool no_data)
  {
    if (r.w.tf_blackout && !no_data)
      return;
    if (clear)
    {
      clear = false;
      accum.clear();
      accum_stamp = 0;
    }
    if (!no_data)
    {
      const Pose p = at(stamp);
      for (auto q : local)
      {
        if (frame == "sensor")
          q = r.sensor.toWorld(q);
        accum.push_back(frame == "odom" ? q : p.toWorld(q));
      }
      accum_stamp = std::max(accum_stamp, stamp / 1000 * 1000);
    }
    last_stamp = stamp;
    has_cloud = true;
  }
  Range predict()
  {
    start_collision = false;
    now_hit = 2;
    if (accum.empty())
      return r.cfg.allow_empty_cloud ? Range{1, 1} : Range{0, 0};
    if (r.w.tf_blackout)
      return {0, 0};
    const Pose p = at(accum_stamp);
    Predict pr{r.cfg, r.foot};
    double eps = 2e-3;
    for (size_t i = 0; i < accum.size(); ++i)
      for (size_t j = 0; j < i; ++j)
        if (std::hypot(std::hypot(accum[i].x - accum[j].x, accum[i].y - accum[j].y), accum[i].z - accum[j].z) < 1.8 * r.cfg.downsample_grid)
          eps = 1.8 * r.cfg.downsample_grid;
    const double zeps = tilted || eps > 2e-3 ? eps : 1e-5;
    for (size_t i = 0; i < accum.size(); ++i)
    {
      const P3 l = p.toLocal(accum[i]);
      if (std::abs(l.z - r.cfg.z_range_min) < zeps || std::abs(l.z - r.cfg.z_range_max) < zeps)
        pr.unsure.push_back(l);
      else if (l.z > r.cfg.z_range_min && l.z < r.cfg.z_range_max)
        pr.pts.push_back(l);
    }
    if (pr.pts.empty() && !pr.unsure.empty())
      return {0, 1e9};
    if (pr.pts.empty())
      return r.cfg.allow_empty_cloud ? Range{1, 1} : Range{0, 0};
    pr.vx = tx;
    pr.vy = ty;
    pr.wz = tw;
    pr.eps = eps;
    const Range o = pr.run();
    start_collision = pr.at_start;
    now_hit = pr.state(0);
    if (pr.overflow)
      return {0, 1e9};
    return o;
  }
  void tick(int64_t t)
  {
    const int64_t to = std::llround(r.cfg.cloud_timeout * 1e9);
    if (t - last_stamp > to)
    {
      accum.clear();
      has_cloud = false;
      now_hit = 2;
      hit_since = -1;
      rl = {0, 0};
      in_effect = {1, 1};  // nothing is predicted until the next cloud
      return;
    }
    const int before = now_hit;
    const Range cur = predict();
    if (now_hit == 1 && before == 0)
      hit_since = t;
    else if (now_hit != 1 || before != 1)
      hit_since = -1;
    rl = {std::min(rl.lo, cur.lo), std::min(rl.hi, cur.hi)};
    const int64_t h = std::llround(std::max(r.cfg.hold, 1.0 / r.cfg.freq) * 1e9);
    in_effect = cur;
    if (cur.hi < 1.0 - 1e-6)
      hold_lo = hold_hi = t + h;
    else if (cur.lo < 1.0 - 1e-6)
    {
      // whether the hold was set is not known
      hold_lo = std::min(hold_lo, t + h);
      hold_hi = std::max(hold_hi, t + h);
    }
    clear = true;
  }
  Range in_effect{1, 1};  // the latest prediction
  void reconfigured(int64_t t)
  {
    const int64_t h = std::llround(std::max(r.cfg.hold, 1.0 / r.cfg.freq) * 1e9);
    if (rl.hi < 1.0 - 1e-6)
      hold_lo = std::max(hold_lo, t + h);
    if (rl.lo < 1.0)
      hold_hi = std::max(hold_hi, t + h);
  }
  void afterTwist(int64_t t)
  {
    if (t > hold_hi)
      rl = {1.0, 1.0};
    else if (t > hold_lo)
      rl = {rl.lo, 1.0};
  }
};
std::vector<P3> randPoints(Src& s, const Rig& r, int lo, int hi)
{
  std::vector<P3> v;
  const int n = s.range(lo, hi);
  for (int i = 0; i < n; ++i)
  {
    const double rad = s.chance(1, 4) ? s.real(0, 0.8) : s.real(0.3, 2.5), a = s.real(-M_PI, M_PI);
    const double zc = 0.5 * (r.cfg.z_range_min + r.cfg.z_range_max), zh = 0.5 * (r.cfg.z_range_max - r.cfg.z_range_min);
    if (s.chance(1, 3))
    {
      v.push_back({(s.flip() ? 1 : -1) * s.real(0.4, 2.0), s.sym(0.3), zc + s.sym(0.4 * zh)});
      continue;
    }
    const double z = s.chance(1, 6) ? zc + (s.flip() ? 1 : -1) * (zh + 0.2 + s.real(0, 1)) : zc + s.sym(0.4 * zh);
    v.push_back({rad * std::cos(a), rad * std::sin(a), z});
  }
  return v;
}

PBT_FACET(ratio, 3, "random configurations, footprints, robot motion, clouds, commands and timings; every published limit against the documented prediction in double precision; non-trivial: a limit strictly between 0 and 1 or an escape from a collision")
{
  Src& s = c.src;
  sim::resetWorld();
  Rig r;
  pbt::Scribe log(c);
  randConfig(s, r.cfg);
  r.cfg.cloud_timeout = std::max(r.cfg.cloud_timeout, 0.5);
  r.foot = randFootprint(s, false);
  r.compat = s.flip();
  r.sensor.x = s.sym(0.5);
  r.sensor.a = s.sym(M_PI);
  r.pose.x = s.sym(5);
  r.pose.y = s.sym(5);
  r.pose.a = s.sym(M_PI);
  const bool tilt = s.chance(1, 4);
  auto randTilt = [&](Pose& p)
  {
    if (!tilt)
      return;
    p.roll = s.sym(0.4);
    p.pitch = s.sym(0.4);
    p.z = s.sym(0.3);
  };
  randTilt(r.sensor);
  randTilt(r.pose);
  r.begin(log);
  Model m(r);
  m.tilted = tilt;
  int partial = 0, zero = 0, full = 0, escape = 0, checked = 0, reconf = 0, stuck = 0;
  const bool lazy_tf = s.chance(1, 4);
  auto drain = [&]()
  {
    for (auto& st : *r.status)
    {
      const int64_t t = st.first.toNSec();
      m.tick(t);
      const double l = st.second.limit_ratio;
      log << "  tick " << t << " limit " << l << " expected " << m.rl.lo << ".." << m.rl.hi << "\n";
      PBT_CHECK(std::isfinite(l) && l >= 0, "limit", "limit " << l);
      // The limit of a slow command may exceed 1; it is not applied then.
      PBT_CHECK(l >= std::min(1.0, m.rl.lo) - 2e-3, "over-limited", "limit " << l << " although " << m.rl.lo << ".." << m.rl.hi << " is expected");
      PBT_CHECK(l <= std::min(1.0, m.rl.hi) + 2e-3, "under-limited", "limit " << l << " although " << m.rl.lo << ".." << m.rl.hi << " is expected");
      PBT_CHECK(st.second.is_cloud_available == m.has_cloud, "status", "cloud availability " << int(st.second.is_cloud_available));
      if (m.now_hit < 2)
        PBT_CHECK(st.second.stuck_started_since.isZero() == (m.now_hit == 0), "stuck", "stuck since " << st.second.stuck_started_since << " although the footprint " << (m.now_hit ? "is" : "is not") << " in a collision");
      if (m.now_hit == 1 && m.hit_since >= 0)
      {
        PBT_CHECK(std::abs(static_cast<int64_t>(st.second.stuck_started_since.toNSec()) - m.hit_since) < 2000, "stuck", "stuck since " << st.second.stuck_started_since << " instead of " << m.hit_since);
        ++stuck;
      }
      m.rl = {l, l};
      ++checked;
      (l > 1e-3 && l < 0.999 ? partial : l <= 1e-3 ? zero : full)++;
      escape += m.start_collision && l > 1e-3;
    }
    r.status->clear();
  };
  const int n = s.range(3, 30);
  for (int i = 0; i < n; ++i)
  {
    switch (s.weighted({3, 4, 4, 5, 1}))
    {
      case 0:
        if (r.tf_log.back().first == r.w.now)
          break;
        r.pose.x += s.sym(0.3);
        r.pose.y += s.sym(0.3);
        r.pose.a += s.sym(0.5);
        randTilt(r.pose);
        r.tf();
        log << "pose " << r.pose.x << " " << r.pose.y << " " << r.pose.a << " tilt " << r.pose.roll << " " << r.pose.pitch << " z " << r.pose.z << "\n";
        break;
      case 1:
      {
        const char* frames[] = {"base_link", "sensor", "odom"};
        const std::string f = frames[s.weighted({3, 1, 1})];
        auto pts = randPoints(s, r, s.chance(1, 8) ? 0 : 1, 6);
        int64_t stamp = r.w.now;
        if (!lazy_tf)
          r.tf();
        if (s.chance(1, 4) && r.w.now - r.tf_log[r.tf_log.size() / 2].first < 300000000 && r.tf_log.size() > 3)
          stamp = r.tf_log[r.tf_log.size() / 2].first;
        if (lazy_tf && stamp > r.tf_log.back().first)
          stamp = r.w.now;  // newer than any transform: the latest one is used
        if (f == "odom")
          for (auto& p : pts)
            p = r.pose.toWorld(p);
        const bool nd = pts.empty();
        log << r.w.now << " cloud " << f << " stamp " << stamp;
        for (auto& p : pts)
          log << " (" << p.x << " " << p.y << " " << p.z << ")";
        log << "\n";
        m.cloud(pts, f, stamp, nd);
        r.cloud(pts, f, stamp, nd);
        // Transforms that become known later would change what the same stamp means.
        if (lazy_tf && stamp > r.tf_log.back().first)
          r.tf();
        break;
      }
      case 2:
      {
        m.tx = s.chance(1, 6) ? 0 : s.sym(1.2 * r.cfg.lin_vel);
        m.ty = s.chance(1, 5) ? s.sym(r.cfg.lin_vel) : 0;
        m.tw = s.flip() ? 0 : s.sym(1.2 * r.cfg.ang_vel);
        if (s.chance(1, 3))
        {
          m.tx = r.cfg.lin_vel * (s.flip() ? 1 : -1);
          m.ty = m.tw = 0;
        }
        r.twist(m.tx, m.ty, m.tw);
        log << r.w.now << " twist " << m.tx << " " << m.ty << " " << m.tw << "\n";
        PBT_CHECK(r.out->size() == 1, "outputs", r.out->size() << " outputs for one command");
        if (!m.has_cloud)
        {
          const auto& o = r.out->back().second;
          PBT_CHECK(o.linear.x == 0 && o.linear.y == 0 && o.angular.z == 0, "no-cloud", "moves without a cloud");
        }
        else
        {
          const auto& o = r.out->back().second;
          auto apply = [&](double q)
          {
            q = std::min(1.0, q);
            geometry_msgs::Twist t;
            double k = std::hypot(m.tx, m.ty) * q;
            k = k > r.cfg.max_linear_vel ? (r.cfg.max_linear_vel > 0 ? r.cfg.max_linear_vel / k : 0.0) : 1.0;
            t.linear.x = m.tx * q * k;
            t.linear.y = m.ty * q * k;
            t.angular.z = std::max(-r.cfg.max_angular_vel, std::min(r.cfg.max_angular_vel, m.tw * q));
            return t;
          };
          const auto a = apply(m.rl.lo), b = apply(m.rl.hi);
          auto in = [](double v, double p, double q)
          { return v >= std::min(p, q) - 1e-5 && v <= std::max(p, q) + 1e-5; };
          PBT_CHECK(in(o.linear.x, a.linear.x, b.linear.x) && in(o.linear.y, a.linear.y, b.linear.y) && in(o.angular.z, a.angular.z, b.angular.z),
                    "output", "command " << m.tx << " " << m.ty << " " << m.tw << " with limit " << m.rl.lo << ".." << m.rl.hi << " came out as " << o.linear.x << " " << o.linear.y << " " << o.angular.z);
          const double most = std::min(1.0, m.in_effect.hi) + 2e-3;
          PBT_CHECK(std::abs(o.linear.x) <= std::abs(m.tx) * most + 1e-5 && std::abs(o.angular.z) <= std::abs(m.tw) * most + 1e-5,
                    "expired", "command " << m.tx << " " << m.ty << " " << m.tw << " came out as " << o.linear.x << " " << o.linear.y << " " << o.angular.z << " although the latest prediction limits to " << m.in_effect.hi);
          m.afterTwist(r.w.now);
        }
        r.out->clear();
        break;
      }
      case 3:
        r.w.advanceNs(nsGap(s, 1.5 / r.cfg.freq));
        drain();
        r.out->clear();
        break;
      case 4:
        if (s.chance(1, 3))
        {
          r.w.tf_blackout = !r.w.tf_blackout;
          log << "transforms " << (r.w.tf_blackout ? "lost" : "back") << "\n";
        }
        else if (s.chance(1, 2))
        {
          safety_limiter::SafetyLimiterConfig nc = r.cfg;
          randConfig(s, nc);
          nc.cloud_timeout = std::max(nc.cloud_timeout, 0.5);
          log << "reconfigure";
          dynamic_reconfigure::reconfigure<safety_limiter::SafetyLimiterConfig>([nc](safety_limiter::SafetyLimiterConfig& x)
                                                                               { x = nc; });
          nc.forEachParam(Show{log});
          log << "\n";
          r.cfg = nc;
          // the limit stays until the next prediction
          m.reconfigured(r.w.now);
          ++reconf;
          drain();
        }
        break;
    }
    PBT_CHECK(!r.w.crashed, "crash", r.w.crash_what);
  }
  r.w.stop();
  c.labelIf(reconf, "reconfigured");
  c.labelIf(escape, "escape");
  c.labelIf(stuck, "stuck");
  c.labelIf(m.tilted, "tilted");
  c.labelIf(partial, "partial");
  c.labelIf(zero, "zero");
  c.labelIf(full, "full");
  c.nontrivial(partial || escape);
}

PBT_FACET(closed_loop, 1, "a robot with limited acceleration obeys the limited commands among random obstacles at random rates and delays; it never runs over an obstacle that it could see; non-trivial: the limiter reduced the speed while the robot moved")
{
  Src& s = c.src;
  sim::resetWorld();
  Rig r;
  pbt::Scribe log(c);
  auto& cf = r.cfg;
  cf.freq = s.range(5, 20);
  cf.lin_vel = s.real(0.3, 1.5);
  cf.lin_acc = s.real(0.5, 2.0);
  cf.ang_vel = s.real(0.3, 1.5);
  cf.ang_acc = s.real(0.5, 3.0);
  cf.dt = s.real(0.04, 0.12);
  cf.d_margin = s.real(0.1, 0.3);
  cf.yaw_margin = s.real(0.1, 0.3);
  cf.downsample_grid = s.real(0.01, 0.03);
  cf.hold = s.chance(1, 3) ? s.real(0.0, 0.5) : 0;
  cf.allow_empty_cloud = true;
  const int mode = s.range(0, 2);  // straight, turn in place, arc
  r.foot = randFootprint(s, mode == 0);
  r.pose.x = s.sym(3);
  r.pose.y = s.sym(3);
  r.pose.a = s.sym(M_PI);
  const double v0 = mode == 1 ? 0 : (s.flip() ? 1 : -1) * s.real(0.15, cf.lin_vel), w0 = mode == 0 ? 0 : (s.flip() ? 1 : -1) * s.real(0.15, cf.ang_vel);
  double reach = 0;
  for (auto& p : r.foot)
    reach = std::max(reach, std::hypot(p.x, p.y));
  const double step = (std::abs(v0) + std::abs(w0) * reach) * cf.dt;
  const double depth = 0.012 + cf.downsample_grid * 0.9 + (mode == 0 ? 0 : step);
  std::vector<P3> obst;
  const int n = s.range(1, 6);
  for (int i = 0; i < n; ++i)
  {
    const double d = s.real(0.3, 3.0), a = s.chance(2, 3) && mode == 0 ? (v0 > 0 ? 0 : M_PI) + s.sym(0.4) : s.real(-M_PI, M_PI);
    const P3 l{d * std::cos(a), d * std::sin(a), 0.25};
    if (signedDist(r.foot, {l.x, l.y}) > 0.05)
      obst.push_back(r.pose.toWorld(l));
  }
  const double cloud_p = s.real(0.03, 0.15), twist_p = s.real(0.02, 0.1);
  r.begin(log);
  log << "command " << v0 << " " << w0 << ", cloud every " << cloud_p << ", command every " << twist_p << ", depth " << depth << "\n";
  for (auto& o : obst)
  {
    const P3 l = r.pose.toLocal(o);
    log << "obstacle (" << l.x << ", " << l.y << ")\n";
  }
  double cmd = 0, sp = 0;  // fraction of the command
  double next_c = 0, next_t = 0, moved = 0;
  bool limited = false;
  const double acc = std::min(v0 != 0 ? cf.lin_acc / std::abs(v0) : 1e9, w0 != 0 ? cf.ang_acc / std::abs(w0) : 1e9);
  const double h = 0.01;
  bool seen = false;
  for (double t = 0; t < 6.0; t += h)
  {
    r.tf();
    if (t >= next_c)
    {
      std::vector<P3> local;
      for (auto& o : obst)
        local.push_back(r.pose.toLocal(o));
      r.cloud(local, "base_link", r.w.now, local.empty());
      next_c += cloud_p;
    }
    if (t > 0.3 && t >= next_t)
    {
      // the first commands are a creep so that the prediction knows where to look
      r.twist(v0, 0, w0);
      next_t = t + twist_p;
    }
    r.w.advance(h);
    for (auto& o : *r.out)
      cmd = v0 != 0 ? o.second.linear.x / v0 : o.second.angular.z / w0;
    r.out->clear();
    const double before = sp;
    sp += std::max(-acc * h, std::min(acc * h, cmd - sp));
    const double k = 0.5 * (before + sp) * h;
    r.pose.x += std::cos(r.pose.a + w0 * k / 2) * v0 * k;
    r.pose.y += std::sin(r.pose.a + w0 * k / 2) * v0 * k;
    r.pose.a += w0 * k;
    moved += std::abs(k);
    limited = limited || (cmd < 0.95 && moved > 0.1);
    for (auto& o : obst)
    {
      const P3 l = r.pose.toLocal(o);
      const double d = signedDist(r.foot, {l.x, l.y});
      PBT_CHECK(d > -depth, "collision", "obstacle is " << -d << " m inside of the footprint at " << t << " s, speed ratio " << sp << ", commanded " << cmd);
    }
    seen = true;
  }
  (void)seen;
  PBT_CHECK(!r.w.crashed, "crash", r.w.crash_what);
  r.w.stop();
  c.label(mode == 0 ? "straight" : mode == 1 ? "turn" : "arc");
  c.labelIf(sp < 0.05, "stopped");
  c.nontrivial(limited);
}

PBT_FACET(bounds, 1, "random commands under random environments, losses, disabling and reconfiguration; every output against its input and the maximum speeds; non-trivial: an output was reduced and another one passed")
{
  Src& s = c.src;
  sim::resetWorld();
  Rig r;
  pbt::Scribe log(c);
  randConfig(s, r.cfg);
  r.foot = randFootprint(s, false);
  r.compat = s.flip();
  if (s.chance(1, 3))
    r.watchdog = s.real(0.2, 1.0);
  r.begin(log);
  int reduced = 0, passed = 0;
  // With only far obstacles and fresh data nothing is limited.
  const bool far = s.chance(1, 3);
  int64_t good_since = -1, last_cloud = -1, last_kick = r.w.now;
  const int n = s.range(3, 30);
  for (int i = 0; i < n; ++i)
  {
    switch (s.weighted({1, 4, 6, 4, 1, 1, 1}))
    {
      case 0:
        r.pose.x += s.sym(0.3);
        r.pose.a += s.sym(0.5);
        r.tf();
        break;
      case 1:
      {
        auto pts = randPoints(s, r, 1, 5);
        if (far)
          for (auto& p : pts)
          {
            const double k = 30.0 / (1e-6 + std::hypot(p.x, p.y));
            p = {p.x * k + 40, p.y * k + 80, 0.5 * (r.cfg.z_range_min + r.cfg.z_range_max)};
          }
        r.tf();
        r.cloud(pts, "base_link", r.w.now);
        log << r.w.now << " cloud\n";
        last_cloud = r.w.now;
        if (!r.w.tf_blackout && good_since == -1)
          good_since = r.w.now;
        break;
      }
      case 2:
      {
        const double vx = s.chance(1, 6) ? 0 : s.sym(2), vy = s.chance(1, 4) ? s.sym(2) : 0, wz = s.chance(1, 4) ? 0 : s.sym(3);
        r.out->clear();
        r.twist(vx, vy, wz);
        log << r.w.now << " twist " << vx << " " << vy << " " << wz << "\n";
        PBT_CHECK(r.out->size() == 1, "outputs", r.out->size() << " outputs for one command");
        const auto& o = r.out->back().second;
        auto part = [](double in, double out)
        { return std::isfinite(out) && (out == 0 || (out > 0) == (in > 0)) && std::abs(out) <= std::abs(in) + 1e-9; };
        PBT_CHECK(part(vx, o.linear.x) && part(vy, o.linear.y) && part(wz, o.angular.z), "exceeds", "command " << vx << " " << vy << " " << wz << " came out as " << o.linear.x << " " << o.linear.y << " " << o.angular.z);
        PBT_CHECK(std::hypot(o.linear.x, o.linear.y) <= r.cfg.max_linear_vel + 1e-9 && std::abs(o.angular.z) <= r.cfg.max_angular_vel + 1e-9, "maximum", "speed " << std::hypot(o.linear.x, o.linear.y) << " / " << o.angular.z);
        PBT_CHECK(std::abs(o.linear.x * vy - o.linear.y * vx) <= 1e-9 * (1 + std::abs(vx) + std::abs(vy)), "direction", "direction of the motion changed");
        // Before the maximum speeds are applied everything is scaled by one factor.
        double lin_in = std::hypot(vx, vy), lin_out = std::hypot(o.linear.x, o.linear.y);
        if (lin_in > 1e-3 && std::abs(wz) > 1e-3)
        {
          const double ql = lin_out / lin_in, qa = std::abs(o.angular.z / wz);
          const bool lc = lin_out > r.cfg.max_linear_vel - 1e-6, ac = std::abs(o.angular.z) > r.cfg.max_angular_vel - 1e-6;
          if (!lc && !ac)
            PBT_CHECK(std::abs(ql - qa) < 1e-6, "factor", "linear " << ql << " and angular " << qa << " ratio differ");
          else if (!lc)
            PBT_CHECK(ql >= qa - 1e-6, "factor", "linear " << ql << " and angular " << qa << " ratio");
          else if (!ac)
            PBT_CHECK(qa >= ql - 1e-6, "factor", "linear " << ql << " and angular " << qa << " ratio");
        }
        const double kx = lin_in > r.cfg.max_linear_vel ? r.cfg.max_linear_vel / lin_in : 1;
        const double ez = std::max(-r.cfg.max_angular_vel, std::min(r.cfg.max_angular_vel, wz));
        const bool same = std::abs(o.linear.x - vx * kx) < 1e-9 && std::abs(o.linear.y - vy * kx) < 1e-9 && std::abs(o.angular.z - ez) < 1e-9;
        const int64_t tick = std::llround(1e9 / r.cfg.freq);
        // Obstacles are 30 m or farther away: nothing to limit while data is fresh.
        if (far && good_since >= 0 && r.w.now - good_since >= 0 && r.w.now - last_cloud < std::llround(r.cfg.cloud_timeout * 1e9) - tick &&
            (r.watchdog <= 0 || r.w.now - last_kick < std::llround(r.watchdog * 1e9)) && !r.w.tf_blackout)
          PBT_CHECK(same, "needless", "command " << vx << " " << vy << " " << wz << " was limited to " << o.linear.x << " " << o.linear.y << " " << o.angular.z << " without any obstacle");
        (same ? passed : reduced)++;
        break;
      }
      case 3:
      {
        r.w.advanceNs(nsGap(s, 1.5 / r.cfg.freq));
        const int64_t tick = std::llround(1e9 / r.cfg.freq);
        if (last_cloud < 0 || r.w.now - last_cloud > std::llround(r.cfg.cloud_timeout * 1e9) - tick ||
            (r.watchdog > 0 && r.w.now - last_kick >= std::llround(r.watchdog * 1e9)))
          good_since = -2;  // from here on limits of the past may linger
        break;
      }
      case 4:
        r.disable(s.flip());
        break;
      case 5:
        r.kick();
        last_kick = r.w.now;
        break;
      case 6:
        if (s.chance(1, 4))
        {
          r.w.tf_blackout = !r.w.tf_blackout;
          good_since = -2;
        }
        else if (s.chance(1, 2))
        {
          safety_limiter::SafetyLimiterConfig nc = r.cfg;
          randConfig(s, nc);
          nc.freq = r.cfg.freq;
          dynamic_reconfigure::reconfigure<safety_limiter::SafetyLimiterConfig>([nc](safety_limiter::SafetyLimiterConfig& x)
                                                                               { x = nc; });
          r.cfg = nc;
          good_since = -2;
          log << "reconfigure\n";
        }
        break;
    }
    PBT_CHECK(!r.w.crashed, "crash", r.w.crash_what);
  }
  r.w.stop();
  c.labelIf(far, "far obstacles");
  c.nontrivial(reduced && passed);
}

PBT_FACET(losses, 2, "random interleavings of clouds, commands, watchdog resets, disable requests, transform losses and pauses against the documented stop conditions; non-trivial: a stop by a loss was followed by motion again")
{
  Src& s = c.src;
  sim::resetWorld();
  Rig r;
  pbt::Scribe log(c);
  randConfig(s, r.cfg);
  r.cfg.max_linear_vel = r.cfg.max_angular_vel = 10;
  r.foot = randFootprint(s, false);
  r.compat = s.flip();
  if (s.flip())
    r.watchdog = s.real(0.2, 1.0);
  r.begin(log);
  const int64_t ms = 1000000, to = std::llround(r.cfg.cloud_timeout * 1e9), tick = std::llround(1e9 / r.cfg.freq) + ms,
                dis = std::llround(r.cfg.disable_timeout * 1e9), wd = std::llround(r.watchdog * 1e9);
  int64_t last_cloud = -1, last_dis = -1, last_kick = r.w.now, blackout_since = -1, cloud_arrived = -1;
  bool stopped = false, resumed = false, stop_by_wd = false;
  const int n = s.range(5, 40);
  bool zero_sent = true, wd_zero_sent = true;  // spontaneous stop commands
  auto isZero = [](const geometry_msgs::Twist& t)
  { return t.linear.x == 0 && t.linear.y == 0 && t.linear.z == 0 && t.angular.x == 0 && t.angular.y == 0 && t.angular.z == 0; };
  auto note = [&]()
  {
    for (auto& o : *r.out)
    {
      PBT_CHECK(isZero(o.second), "spontaneous", "moving command without an input");
      const int64_t t = o.first.toNSec();
      if (last_cloud >= 0 && t - last_cloud > to)
        zero_sent = true;
      if (wd > 0 && t - last_kick >= wd)
        wd_zero_sent = true;
    }
    r.out->clear();
  };
  for (int i = 0; i < n; ++i)
  {
    const int64_t now = r.w.now;
    // The documented stop conditions, certain up to the prediction period.
    const bool fresh = last_cloud >= 0 && now - last_cloud <= to;
    const bool lost = last_cloud < 0 || now - last_cloud > to + tick;
    const bool wd_lost = wd > 0 && now - last_kick >= wd + 2000, wd_ok = wd == 0 || now - last_kick < wd;
    switch (s.weighted({4, 6, 5, 1, 3, 1}))
    {
      case 0:
      {
        auto pts = randPoints(s, r, 1, 3);
        for (auto& p : pts)
          p = {p.x + 60, p.y + 60, 0.5 * (r.cfg.z_range_min + r.cfg.z_range_max)};
        r.tf();
        int64_t stamp = now;
        if (s.chance(1, 4))
          stamp -= static_cast<int64_t>(s.draw(to / 1000)) * 1000;
        r.cloud(pts, "odom", stamp);
        log << now << " cloud " << stamp << "\n";
        if (!r.w.tf_blackout)
        {
          last_cloud = stamp;
          cloud_arrived = now;
          zero_sent = false;
        }
        break;
      }
      case 1:
      {
        const double vx = 0.1 + s.real(0, 1), wz = s.sym(1);
        r.twist(vx, 0, wz);
        log << now << " twist\n";
        PBT_CHECK(r.out->size() == 1, "outputs", r.out->size() << " outputs for one command");
        const auto o = r.out->back().second;
        r.out->clear();
        const bool pass = std::abs(o.linear.x - vx) < 1e-9 && std::abs(o.angular.z - wz) < 1e-9;
        const bool disabled = last_dis >= 0 && now - last_dis < dis - 1000;
        if (disabled)
        {
          PBT_CHECK(pass, "disable", "command is limited " << (now - last_dis) * 1e-9 << " s after a disable request");
          break;
        }
        if (last_dis >= 0 && now - last_dis < dis + 1000)
          break;
        if (lost)
          PBT_CHECK(isZero(o), "cloud-timeout", "moves although the last cloud is " << (last_cloud < 0 ? -1 : (now - last_cloud) * 1e-9) << " s old");
        if (wd_lost)
          PBT_CHECK(isZero(o), "watchdog", "moves although the last watchdog reset was " << (now - last_kick) * 1e-9 << " s ago");
        if (blackout_since >= 0 && now - blackout_since > tick && cloud_arrived <= blackout_since)
          PBT_CHECK(isZero(o), "transform", "moves although the transform is lost since " << (now - blackout_since) * 1e-9 << " s");
        if (isZero(o))
          stopped = true;
        else
          resumed = resumed || stopped;
        (void)fresh;
        (void)wd_ok;
        break;
      }
      case 2:
        r.w.advanceNs(nsGap(s, s.chance(1, 4) ? 2 * r.cfg.cloud_timeout : s.flip() ? 0.3 : 0.05));
        note();
        if (last_cloud >= 0 && !zero_sent && r.w.now - std::max(last_cloud + to, cloud_arrived) > tick)
          PBT_CHECK(false, "stop-command", "no stop command although the last cloud is " << (r.w.now - last_cloud) * 1e-9 << " s old");
        if (wd > 0 && !wd_zero_sent && r.w.now - last_kick > wd + ms)
          PBT_CHECK(false, "stop-command", "no stop command although the last watchdog reset was " << (r.w.now - last_kick) * 1e-9 << " s ago");
        break;
      case 3:
      {
        const bool b = s.chance(2, 3);
        r.disable(b);
        log << now << " disable " << b << "\n";
        if (b)
          last_dis = now;
        break;
      }
      case 4:
        if (wd_lost)
          stop_by_wd = true;
        r.kick();
        log << now << " kick\n";
        last_kick = now;
        wd_zero_sent = false;
        break;
      case 5:
        if (s.chance(1, 3))
        {
          r.w.tf_blackout = !r.w.tf_blackout;
          blackout_since = r.w.tf_blackout ? now : -1;
          log << now << " transforms " << !r.w.tf_blackout << "\n";
        }
        break;
    }
    for (auto& st : *r.status)
    {
      const int64_t t = st.first.toNSec();
      if (wd > 0)
      {
        if (t - last_kick >= wd + 2000)
          PBT_CHECK(st.second.has_watchdog_timed_out, "status", "watchdog loss is not reported");
        if (t - last_kick < wd && last_kick <= t && last_kick != now)
          PBT_CHECK(!st.second.has_watchdog_timed_out, "status", "watchdog loss is reported " << (t - last_kick) * 1e-9 << " s after the reset");
      }
      else
        PBT_CHECK(!st.second.has_watchdog_timed_out, "status", "watchdog loss is reported without a watchdog");
      if (t - last_cloud > to + tick && t > cloud_arrived + tick)
        PBT_CHECK(!st.second.is_cloud_available, "status", "cloud is reported as available although it is " << (t - last_cloud) * 1e-9 << " s old");
      if (last_cloud >= 0 && t - last_cloud <= to)
        PBT_CHECK(st.second.is_cloud_available, "status", "cloud is reported as missing although it is " << (t - last_cloud) * 1e-9 << " s old");
    }
    r.status->clear();
    PBT_CHECK(!r.w.crashed, "crash", r.w.crash_what);
  }
  // With everything back the robot moves again.
  r.w.tf_blackout = false;
  for (int i = 0; i < 8; ++i)
  {
    r.tf();
    if (r.watchdog > 0)
      r.kick();
    r.cloud({{60, 60, 0.5 * (r.cfg.z_range_min + r.cfg.z_range_max)}}, "odom", r.w.now);
    r.w.advance(std::max(0.02, std::min(std::min(0.9 * r.cfg.cloud_timeout, r.watchdog > 0 ? 0.9 * r.watchdog : 1.0), std::max(r.cfg.hold, 1 / r.cfg.freq) / 6 + 0.01)));
    r.out->clear();
    r.twist(0.3, 0, 0.1);
  }
  const int64_t end = r.w.now + std::llround((r.cfg.hold + 4.0 / r.cfg.freq) * 1e9);
  while (r.w.now < end)
  {
    r.tf();
    if (r.watchdog > 0)
      r.kick();
    r.cloud({{60, 60, 0.5 * (r.cfg.z_range_min + r.cfg.z_range_max)}}, "odom", r.w.now);
    r.w.advance(0.05);
    r.out->clear();
    r.twist(0.3, 0, 0.1);
  }
  r.out->clear();
  r.twist(0.3, 0, 0.1);
  PBT_CHECK(r.out->size() == 1 && std::abs(r.out->back().second.linear.x - 0.3) < 1e-9 && std::abs(r.out->back().second.angular.z - 0.1) < 1e-9, "recover", "still limited after all inputs came back");
  r.w.stop();
  c.labelIf(r.watchdog > 0, "watchdog");
  c.labelIf(stop_by_wd, "watchdog expired");
  c.nontrivial(stopped && resumed);
}
}  // namespace
