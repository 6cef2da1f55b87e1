// P20, P21, P22: the planner_3d node on the simulated graph.
#include <pbt.h>
#include <algorithm>
#include <cmath>
#include <limits>
#include <queue>
#include <set>
#include <actionlib/server/simple_action_server.h>
#include <costmap_cspace_msgs/CSpace3D.h>
#include <costmap_cspace_msgs/CSpace3DUpdate.h>
#include <dynamic_reconfigure/server.h>
#include <geometry_msgs/PoseStamped.h>
#include <move_base_msgs/MoveBaseAction.h>
#include <nav_msgs/GetPlan.h>
#include <nav_msgs/Path.h>
#include <planner_cspace/Planner3DConfig.h>
#include <planner_cspace_msgs/MoveWithToleranceAction.h>
#include <planner_cspace_msgs/PlannerStatus.h>
#include <sim/world.h>
#include <std_msgs/Empty.h>
#include <trajectory_tracker_msgs/PathWithVelocity.h>

int planner_3d_main(int argc, char** argv);
namespace
{
using pbt::Ctx;
using pbt::Src;
using Config = planner_cspace::Planner3DConfig;
using Status = planner_cspace_msgs::PlannerStatus;
using CSpace = costmap_cspace_msgs::CSpace3D;
using Update = costmap_cspace_msgs::CSpace3DUpdate;

struct Cell
{
  int x = 0, y = 0, a = 0;
  bool operator==(const Cell& o) const { return x == o.x && y == o.y && a == o.a; }
  bool operator<(const Cell& o) const { return std::tie(x, y, a) < std::tie(o.x, o.y, o.a); }
};
std::ostream& operator<<(std::ostream& o, const Cell& c) { return o << "(" << c.x << "," << c.y << "," << c.a << ")"; }
struct Pose
{
  double x = 0, y = 0, a = 0;
};
double norm(double a) { return std::remainder(a, 2 * M_PI); }
void setQuat(geometry_msgs::Quaternion& q, double a)
{
  q.x = q.y = 0;
  q.z = std::sin(a / 2);
  q.w = std::cos(a / 2);
}
double yawOf(const geometry_msgs::Quaternion& q) { return 2 * std::atan2(q.z, q.w); }

// The costmap as the planner is told it: [a][y][x], -1 for unknown.
struct Map
{
  int w = 0, h = 0, a = 0;
  double lr = 0.1, ar = 0, ox = 0, oy = 0;
  std::vector<int> c;
  int& at(int x, int y, int k) { return c[(k * h + y) * w + x]; }
  int at(int x, int y, int k) const { return c[(k * h + y) * w + x]; }
  int at(const Cell& p) const { return at(p.x, p.y, p.a); }
  bool in(int x, int y, int margin = 0) const { return x >= margin && y >= margin && x < w - margin && y < h - margin; }
  int rough(int x, int y) const
  {
    int m = 100;
    for (int k = 0; k < a; ++k)
      m = std::min(m, at(x, y, k));
    return m;
  }
  double cx(double x) const { return (x + 0.5) * lr + ox; }
  double cy(double y) const { return (y + 0.5) * lr + oy; }
  // distance of a position from the nearest cell border, in cells
  static double edge(double v) { return std::abs(v - std::round(v)); }
  Cell cell(const Pose& p) const
  {
    Cell r;
    r.x = std::floor((p.x - ox) / lr);
    r.y = std::floor((p.y - oy) / lr);
    r.a = ((std::lround(norm(p.a) / ar) % a) + a) % a;
    return r;
  }
  Pose pose(const Cell& p) const { return {cx(p.x), cy(p.y), norm(p.a * ar)}; }
  Map known(int unknown_cost) const
  {
    Map m = *this;
    for (int& v : m.c)
      if (v < 0)
        v = unknown_cost;
    return m;
  }
  CSpace msg(const std::string& frame, const ros::Time& t) const
  {
    CSpace m;
    m.header.frame_id = frame;
    m.header.stamp = t;
    m.info.width = w;
    m.info.height = h;
    m.info.angle = a;
    m.info.linear_resolution = lr;
    m.info.angular_resolution = ar;
    m.info.origin.position.x = ox;
    m.info.origin.position.y = oy;
    m.info.origin.orientation.w = 1;
    m.data.assign(c.begin(), c.end());
    return m;
  }
};
struct Region
{
  int x = 0, y = 0, w = 0, h = 0, a = 0;
  std::vector<int> c;
  int at(int i, int j, int k) const { return c[(k * h + j) * w + i]; }
  Update msg(const std::string& frame, const ros::Time& t) const
  {
    Update m;
    m.header.frame_id = frame;
    m.header.stamp = t;
    m.x = x;
    m.y = y;
    m.yaw = 0;
    m.width = w;
    m.height = h;
    m.angle = a;
    m.data.assign(c.begin(), c.end());
    return m;
  }
};
// Blocks cells around an obstacle cell, for all headings or only where a long robot would hit it.
void blob(Map& m, int x0, int y0, int x1, int y1, int cost, int arm)
{
  for (int k = 0; k < m.a; ++k)
    for (int x = x0; x <= x1; ++x)
      for (int y = y0; y <= y1; ++y)
        for (int l = -arm; l <= arm; ++l)
        {
          const int px = std::lround(x + l * std::cos(k * m.ar)), py = std::lround(y + l * std::sin(k * m.ar));
          if (m.in(px, py))
            m.at(px, py, k) = std::max(m.at(px, py, k), cost);
        }
}
struct MapGen
{
  bool long_robot = false;
  bool costs = true;
  bool unknown = false;
};
Map genMap(Src& s, const MapGen& g, int min_side, int max_side, std::ostream& log)
{
  Map m;
  m.w = s.irange(min_side, max_side);
  m.h = s.irange(min_side, max_side);
  m.a = s.pick({4, 8, 8, 16});
  m.lr = static_cast<float>(s.pick({0.1, 0.05, 0.25}));
  m.ar = static_cast<float>(2 * M_PI / m.a);
  m.ox = s.irange(-30, 30) * m.lr;
  m.oy = s.irange(-30, 30) * m.lr;
  m.c.assign(m.w * m.h * m.a, 0);
  const int arm = g.long_robot ? s.irange(1, 3) : 0;
  const int n = s.irange(0, 7);
  log << "map " << m.w << "x" << m.h << "x" << m.a << " lr=" << m.lr << " o=" << m.ox << "," << m.oy << " arm=" << arm << "\n";
  for (int i = 0; i < n; ++i)
  {
    const int kind = s.weighted({3, 2, g.costs ? 3 : 0});
    if (kind == 0)
    {
      const int x = s.irange(0, m.w - 1), y = s.irange(0, m.h - 1), w = s.irange(0, 6), h = s.irange(0, 6);
      blob(m, x, y, std::min(m.w - 1, x + w), std::min(m.h - 1, y + h), 100, arm);
      log << " block " << x << "," << y << " +" << w << "," << h << "\n";
    }
    else if (kind == 1)
    {
      const bool vert = s.flip();
      const int n_side = vert ? m.w : m.h, len = vert ? m.h : m.w;
      const int p = s.irange(0, n_side - 1), gap = s.irange(-1, len - 1), gw = s.irange(1, 6);
      for (int j = 0; j < len; ++j)
        if (gap < 0 || j < gap || j >= gap + gw)
          vert ? blob(m, p, j, p, j, 100, arm) : blob(m, j, p, j, p, 100, arm);
      log << " wall " << (vert ? "x=" : "y=") << p << " gap " << gap << "+" << gw << "\n";
    }
    else
    {
      const int x = s.irange(0, m.w - 1), y = s.irange(0, m.h - 1), w = s.irange(0, 12), h = s.irange(0, 12), c = s.irange(1, 99);
      blob(m, x, y, std::min(m.w - 1, x + w), std::min(m.h - 1, y + h), c, arm);
      log << " cost " << c << " " << x << "," << y << " +" << w << "," << h << "\n";
    }
  }
  if (g.unknown)
  {
    const int x = s.irange(0, m.w - 1), y = s.irange(0, m.h - 1), w = s.irange(0, 8), h = s.irange(0, 8);
    for (int k = 0; k < m.a; ++k)
      for (int i = x; i <= std::min(m.w - 1, x + w); ++i)
        for (int j = y; j <= std::min(m.h - 1, y + h); ++j)
          m.at(i, j, k) = -1;
    log << " unknown " << x << "," << y << " +" << w << "," << h << "\n";
  }
  return m;
}
struct Event
{
  enum
  {
    PATH,
    STATUS,
    GOAL
  } kind;
  int64_t t;
  nav_msgs::Path path;
  Status status;
  geometry_msgs::PoseStamped goal;
  bool velocity_set = false;
};
struct Rig
{
  sim::World& w = sim::world();
  Config cfg;
  int range = 3;  // cells
  int unknown_cost = 100;
  bool with_vel = false, crowd = false, retain = true;
  double pos_jump = 1e6;
  Map base;  // as published
  Map cm;    // what the planner has to respect
  bool has_map = false;
  Pose robot;
  std::shared_ptr<std::vector<Event>> ev_log = std::make_shared<std::vector<Event>>();
  std::vector<Event>& ev = *ev_log;
  int64_t last_update = 0;
  void begin(std::ostream& log)
  {
    w.spin_cost_ns = 1000000;  // the node replans without a pause at a switch back point
    w.timer_latency_ns = 20000;    // never zero
    w.setParam("/neonavigation_compatible", 1);
    struct Put
    {
      sim::World& w;
      std::ostream& o;
      void put(const char* n, const XmlRpc::XmlRpcValue& v) const { w.setParam(std::string("/planner_3d/") + n, v); }
      void operator()(const char* n, double& v, double, double) const { put(n, v); o << n << "=" << v << " "; }
      void operator()(const char* n, int& v, int, int) const { put(n, v); o << n << "=" << v << " "; }
      void operator()(const char* n, bool& v) const { put(n, v); o << n << "=" << v << " "; }
    };
    cfg.forEachParam(Put{w, log});
    const Put put{w, log};
    put.put("unknown_cost", unknown_cost);
    put.put("enable_crowd_mode", crowd);
    put.put("retain_last_error_status", retain);
    put.put("use_path_with_velocity", with_vel);
    put.put("pos_jump", pos_jump);
    put.put("yaw_jump", 1e6);
    log << "unknown_cost=" << unknown_cost << " crowd=" << crowd << " retain=" << retain << " with_vel=" << with_vel << " range=" << range << "\n";
    w.external_subs.insert("/path");
    w.external_subs.insert("/path_velocity");
    w.external_subs.insert("/planner_3d/status");
    w.external_subs.insert("/planner_3d/current_goal");
    // the log outlives the rig: the node is unwound at the start of the next case
    w.taps.push_back([ev = ev_log](const std::string& t, const sim::AnyMsg& m, bool from_node)
                     {
                       if (!from_node)
                         return;
                       Event e;
                       e.t = sim::world().now;
                       if (t == "/path")
                       {
                         e.kind = Event::PATH;
                         e.path = *boost::static_pointer_cast<nav_msgs::Path const>(m.ptr);
                       }
                       else if (t == "/path_velocity")
                       {
                         e.kind = Event::PATH;
                         const auto& v = *boost::static_pointer_cast<trajectory_tracker_msgs::PathWithVelocity const>(m.ptr);
                         e.path.header = v.header;
                         for (const auto& p : v.poses)
                         {
                           geometry_msgs::PoseStamped q;
                           q.header = p.header;
                           q.pose = p.pose;
                           e.path.poses.push_back(q);
                           e.velocity_set = e.velocity_set || !std::isnan(p.linear_velocity.x);
                         }
                       }
                       else if (t == "/planner_3d/status")
                       {
                         e.kind = Event::STATUS;
                         e.status = *boost::static_pointer_cast<Status const>(m.ptr);
                       }
                       else if (t == "/planner_3d/current_goal")
                       {
                         e.kind = Event::GOAL;
                         e.goal = *boost::static_pointer_cast<geometry_msgs::PoseStamped const>(m.ptr);
                       }
                       else
                         return;
                       ev->push_back(e); });
    const double p[3] = {0.3, -0.2, 0}, q[4] = {0, 0, 0, 1};
    w.setTf("map", "odom", w.now, p, q, true);
    w.start([]
            { char n[] = "n"; char* a[] = {n, nullptr}; return planner_3d_main(1, a); });
    w.settle();
    alive();
  }
  void alive() { PBT_CHECK(!w.crashed && !w.finished, "crash", w.crash_what); }
  void tf()
  {
    const double p[3] = {robot.x - 0.3, robot.y + 0.2, 0}, q[4] = {0, 0, std::sin(robot.a / 2), std::cos(robot.a / 2)};
    w.setTf("odom", "base_link", w.now, p, q, false);
  }
  void advance(double dt)
  {
    w.advance(dt);
    alive();
  }
  void sendMap(const Map& m) { sendMap(m, w.time()); }
  template <class T>
  void sendMap(const Map& m, const T& stamp)
  {
    base = m;
    cm = m.known(unknown_cost);
    has_map = true;
    w.publish("/costmap", m.msg("map", stamp));
  }
  void sendUpdate(const Region& r)
  {
    last_update = w.now;
    overlay(r);
    w.publish("/costmap_update", r.msg("map", w.time()));
  }
  void overlay(const Region& r)
  {
    cm = base.known(unknown_cost);
    for (int k = 0; k < r.a; ++k)
      for (int i = 0; i < r.w; ++i)
        for (int j = 0; j < r.h; ++j)
        {
          int& v = cm.at(r.x + i, r.y + j, k);
          const int n = r.at(i, j, k);
          if (cfg.overwrite_cost ? n >= 0 : n > v)
            v = n;
        }
  }
  // Cells to which an occupied cell may be moved: the nearest ones by travel cost.
  std::vector<Cell> relocations(const Cell& c, int xy, int ang, bool& found, bool rough = false, int min_xy = 0) const
  {
    std::vector<Cell> best;
    for (const int limit : {cfg.relocation_acceptable_cost, 100})
    {
      double least = HUGE_VAL;
      for (int dx = -xy; dx <= xy; ++dx)
        for (int dy = -xy; dy <= xy; ++dy)
          for (int da = -ang; da <= ang; ++da)
          {
            if ((!dx && !dy && !da) || dx * dx + dy * dy > xy * xy || dx * dx + dy * dy < min_xy * min_xy)
              continue;
            const Cell p{c.x + dx, c.y + dy, (((c.a + da) % cm.a) + cm.a) % cm.a};
            if (!cm.in(p.x, p.y, range) || (rough ? cm.rough(p.x, p.y) : cm.at(p)) >= limit)
              continue;
            int turn = std::abs(da) % cm.a;
            turn = std::min(turn, cm.a - turn);
            const double cost = std::hypot(dx, dy) / cfg.max_vel + turn * cfg.weight_ang_vel / cfg.max_ang_vel;
            if (cost < least - 1e-4)
              best.clear();
            if (cost < least + 1e-4)
              best.push_back(p);
            least = std::min(least, cost);
          }
      if (!best.empty())
        break;
    }
    found = !best.empty();
    return best;
  }
  int tolRange() const { return std::lround(static_cast<float>(cfg.tolerance_range) / cm.lr); }
  int tolAngle() const { return std::lround(static_cast<float>(cfg.tolerance_angle) / cm.ar); }
  // Connected over cells that some heading can occupy, eight neighbours: necessary for any plan.
  bool maybeConnected(const Cell& s, const Cell& g) const { return flood(s, g, 0, false); }
  // Connected over cells free for every heading well inside the map, four neighbours: a plan surely exists.
  bool surelyConnected(const Cell& s, const Cell& g) const { return flood(s, g, range + 1, true); }
  bool roughlyConnected(const Cell& s, const Cell& g) const { return flood(s, g, 0, false, true); }
  bool flood(const Cell& s, const Cell& g, int margin, bool all_headings, bool four = false) const
  {
    const auto ok = [&](int x, int y)
    {
      if (!cm.in(x, y, margin))
        return false;
      if (!all_headings)
        return cm.rough(x, y) < 100;
      for (int k = 0; k < cm.a; ++k)
        if (cm.at(x, y, k) >= 100)
          return false;
      return true;
    };
    if (!ok(s.x, s.y) || !ok(g.x, g.y))
      return false;
    std::vector<char> seen_cell(cm.w * cm.h, 0);
    std::queue<std::pair<int, int>> q;
    q.push({s.x, s.y});
    seen_cell[s.x + s.y * cm.w] = 1;
    while (!q.empty())
    {
      const auto p = q.front();
      q.pop();
      if (p.first == g.x && p.second == g.y)
        return true;
      for (int dx = -1; dx <= 1; ++dx)
        for (int dy = -1; dy <= 1; ++dy)
        {
          if ((all_headings || four) && dx && dy)
            continue;
          const int x = p.first + dx, y = p.second + dy;
          if (ok(x, y) && !seen_cell[x + y * cm.w])
          {
            seen_cell[x + y * cm.w] = 1;
            q.push({x, y});
          }
        }
    }
    return false;
  }
  // Least travel cost to the goal over the rough map (as in P10).
  std::vector<double> field(const Cell& g) const
  {
    const double ec = 1.0 / static_cast<float>(cfg.max_vel);
    std::vector<int> rough(cm.w * cm.h);
    for (int x = 0; x < cm.w; ++x)
      for (int y = 0; y < cm.h; ++y)
        rough[x + y * cm.w] = cm.rough(x, y);
    std::vector<double> v(cm.w * cm.h, HUGE_VAL);
    using E = std::pair<double, int>;
    std::priority_queue<E, std::vector<E>, std::greater<E>> q;
    v[g.x + g.y * cm.w] = -0.5 * ec;
    q.push({-0.5 * ec, g.x + g.y * cm.w});
    while (!q.empty())
    {
      const E t = q.top();
      q.pop();
      if (t.first > v[t.second])
        continue;
      const int px = t.second % cm.w, py = t.second / cm.w;
      for (int dx = -4; dx <= 4; ++dx)
        for (int dy = -4; dy <= 4; ++dy)
        {
          const int sq = dx * dx + dy * dy;
          if (sq == 0 || sq > 16 || !cm.in(px + dx, py + dy))
            continue;
          const double len = std::sqrt(static_cast<double>(sq));
          const int n = static_cast<int>(len + 1e-9);
          double sum = 0;
          bool hit = false;
          for (int i = 0; i < n && !hit; ++i)
          {
            const int c = rough[px + std::lround(static_cast<double>(dx) * i / n) + (py + std::lround(static_cast<double>(dy) * i / n)) * cm.w];
            hit = c > 99;
            sum += c;
          }
          if (hit)
            continue;
          const double nv = t.first + ec * len + cm.lr / 100.0 * (len / n) * sum * static_cast<float>(cfg.weight_costmap);
          double& o = v[px + dx + (py + dy) * cm.w];
          if (nv < o)
          {
            o = nv;
            q.push({nv, px + dx + (py + dy) * cm.w});
          }
        }
    }
    v[g.x + g.y * cm.w] = 0;
    return v;
  }
  // Every pose is well-formed, on the map and free; no gap larger than one move.
  void checkPath(const nav_msgs::Path& p, bool rough = false) const
  {
    PBT_CHECK(p.header.frame_id == "map", "path-frame", "frame '" << p.header.frame_id << "'");
    const geometry_msgs::Pose* prev = nullptr;
    for (size_t i = 0; i < p.poses.size(); ++i)
    {
      const auto& q = p.poses[i].pose;
      PBT_CHECK(std::isfinite(q.position.x) && std::isfinite(q.position.y) && q.position.z == 0 && std::abs(q.orientation.x) + std::abs(q.orientation.y) < 1e-6 &&
                    std::abs(q.orientation.z * q.orientation.z + q.orientation.w * q.orientation.w - 1) < 1e-4,
                "path-pose", "pose " << i << " is not a planar pose: " << q.position.x << " " << q.position.y << " " << q.orientation.z << " " << q.orientation.w);
      const double gx = (q.position.x - cm.ox) / cm.lr, gy = (q.position.y - cm.oy) / cm.lr, ga = norm(yawOf(q.orientation)) / cm.ar;
      // free when any cell within float error of the pose is free
      bool free = false, in = false;
      Cell bad;
      for (const double ex : {-2e-3, 2e-3})
        for (const double ey : {-2e-3, 2e-3})
          for (const double ea : {-2e-3, 2e-3})
          {
            const Cell c{static_cast<int>(std::floor(gx + ex)), static_cast<int>(std::floor(gy + ey)), static_cast<int>(((std::lround(ga + ea) % cm.a) + cm.a) % cm.a)};
            if (!cm.in(c.x, c.y))
              continue;
            in = true;
            bad = c;
            free = free || (rough ? cm.rough(c.x, c.y) : cm.at(c)) < 100;
          }
      PBT_CHECK(in, "path-off-map", "pose " << i << " at cell " << gx << "," << gy << " of " << cm.w << "x" << cm.h);
      PBT_CHECK(free, "path-collides", "pose " << i << " of " << p.poses.size() << " is in occupied cell " << bad << " (" << gx << "," << gy << "," << ga << ")");
      if (prev)
      {
        const double d = std::hypot(q.position.x - prev->position.x, q.position.y - prev->position.y);
        PBT_CHECK(d <= (range + 0.01) * cm.lr, "path-gap", "poses " << i - 1 << " and " << i << " are " << d / cm.lr << " cells apart");
      }
      prev = &q;
    }
  }
};
// Cells of a pose, tolerant of float error at cell centres: use only for poses at centres.
Cell cellOf(const Map& m, const geometry_msgs::Pose& p)
{
  return m.cell(Pose{p.position.x, p.position.y, yawOf(p.orientation)});
}
bool contains(const std::vector<Cell>& v, const Cell& c) { return std::find(v.begin(), v.end(), c) != v.end(); }
Pose inCell(Src& s, const Map& m, const Cell& c, double spread)
{
  Pose p = m.pose(c);
  p.x += s.sym(spread) * m.lr;
  p.y += s.sym(spread) * m.lr;
  p.a = norm(p.a + s.sym(spread) * m.ar);
  return p;
}
Cell drawCell(Src& s, const Map& m, int margin)
{
  if (margin < 0)
    return {s.irange(-2, m.w + 1), s.irange(-2, m.h + 1), s.irange(0, m.a - 1)};
  const int mx = std::min(margin, (m.w - 1) / 2), my = std::min(margin, (m.h - 1) / 2);
  return {s.irange(mx, m.w - 1 - mx), s.irange(my, m.h - 1 - my), s.irange(0, m.a - 1)};
}
Region drawUpdate(Src& s, const Map& m, std::ostream& log)
{
  Region r;
  r.w = s.irange(1, m.w);
  r.h = s.irange(1, m.h);
  r.x = s.irange(0, m.w - r.w);
  r.y = s.irange(0, m.h - r.h);
  r.a = m.a;
  const int fill = s.pick({0, 0, -1});
  Map t = m;
  std::fill(t.c.begin(), t.c.end(), fill);
  const int n = s.irange(0, 4);
  log << " update " << r.x << "," << r.y << " +" << r.w << "," << r.h << " fill " << fill;
  for (int i = 0; i < n; ++i)
  {
    const int x = s.irange(r.x, r.x + r.w - 1), y = s.irange(r.y, r.y + r.h - 1), c = s.chance(8, 10) ? 100 : s.irange(1, 99);
    const int w = s.irange(0, 4), h = s.irange(0, 4), arm = s.irange(0, 1);
    blob(t, x, y, std::min(m.w - 1, x + w), std::min(m.h - 1, y + h), c, arm);
    log << "; " << c << " " << x << "," << y << " +" << w << "," << h << " arm " << arm;
  }
  log << "\n";
  r.c.resize(r.w * r.h * r.a);
  for (int k = 0; k < r.a; ++k)
    for (int i = 0; i < r.w; ++i)
      for (int j = 0; j < r.h; ++j)
        r.c[(k * r.h + j) * r.w + i] = t.at(r.x + i, r.y + j, k);
  return r;
}
geometry_msgs::PoseStamped stamped(const Pose& p)
{
  geometry_msgs::PoseStamped m;
  m.header.frame_id = "map";
  m.pose.position.x = p.x;
  m.pose.position.y = p.y;
  setQuat(m.pose.orientation, p.a);
  return m;
}
void drawConfig(Src& s, Rig& r, const Map& m)
{
  Config& c = r.cfg;
  r.range = s.pick({2, 3, 3, 4});
  c.search_range = (r.range + 0.3) * m.lr;
  c.freq = s.pick({4.0, 10.0});
  c.freq_min = 0.1;
  c.search_timeout_abort = 100;
  c.sw_wait = s.pick({2.0, 0.0, 0.5});
  c.antialias_start = s.chance(1, 4);
  c.max_vel = s.pick({0.3, 1.0, 0.5});
  c.max_ang_vel = s.pick({0.6, 1.0});
  c.min_curve_radius = s.pick({0.1, 0.3, 0.0});
  c.weight_costmap = s.pick({50.0, 5.0, 0.0});
  c.weight_decel = s.pick({50.0, 1.0});
  c.cost_in_place_turn = s.pick({30.0, 1.0});
  c.weight_costmap_turn = s.pick({0.0, 10.0});
  c.turn_penalty_cost_threshold = s.pick({0, 50});
  c.hysteresis_max_dist = s.pick({1.0, 4.0}) * m.lr;
  c.hysteresis_expand = s.pick({1.0, 0.0}) * m.lr;
  c.weight_hysteresis = s.pick({5.0, 0.0});
  c.local_range = (s.chance(6, 10) ? m.w + m.h : s.irange(4, 12)) * m.lr;
  c.longcut_range = s.pick({0.0, 3.0}) * m.lr;
  c.tolerance_range = s.irange(0, 4) * m.lr;
  if (c.tolerance_range > 1.0)
    c.tolerance_range = 1.0;
  c.tolerance_angle = s.pick({0.0, 0.0, 1.0, 2.0}) * m.ar;
  if (c.tolerance_angle > 3.14)
    c.tolerance_angle = 3.14;
  c.goal_tolerance_lin = s.pick({0.0, 1.0, 2.0}) * m.lr;
  c.goal_tolerance_ang = s.pick({0.0, 1.0}) * m.ar;
  if (c.goal_tolerance_ang > 3.14)
    c.goal_tolerance_ang = 3.14;
  c.goal_tolerance_ang_finish = s.pick({0.05, 0.5});
  c.find_best = s.flip();
  c.temporary_escape = false;
  c.relocation_acceptable_cost = s.pick({50, 50, 99, 10});
  c.overwrite_cost = s.chance(3, 10);
  c.fast_map_update = s.chance(3, 10);
  c.remember_updates = s.chance(2, 10);
  c.force_goal_orientation = s.flip();
  c.keep_a_part_of_previous_path = false;
  r.unknown_cost = s.pick({100, 0, 40});
  r.with_vel = s.chance(2, 10);
}

PBT_FACET(plan, 1, "a path of more than one pose was published")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  Rig r;
  MapGen g;
  g.long_robot = s.chance(4, 10);
  g.costs = s.chance(7, 10);
  g.unknown = s.chance(3, 10);
  Map m = genMap(s, g, 8, 30, log);
  drawConfig(s, r, m);
  r.begin(log);
  sim::World& w = r.w;
  const Cell start = drawCell(s, m, s.chance(9, 10) ? r.range : 0), goal = drawCell(s, m, s.chance(9, 10) ? r.range : 0);
  r.robot = inCell(s, m, start, 0.45);
  const Pose goal_pose = inCell(s, m, goal, 0.45);
  log << "start " << start << " goal " << goal << " robot " << r.robot.x << " " << r.robot.y << " " << r.robot.a << "\n";
  r.tf();
  r.advance(0.05);
  bool retained = false;
  Region early;
  if (s.chance(1, 5))
  {
    // a smaller map first, and an update which fits in the next one only
    Map part = m;
    part.w = s.irange(r.range * 2 + 1, m.w);
    part.h = s.irange(r.range * 2 + 1, m.h);
    part.c.assign(part.w * part.h * part.a, 0);
    for (int k = 0; k < m.a; ++k)
      for (int x = 0; x < part.w; ++x)
        for (int y = 0; y < part.h; ++y)
          part.at(x, y, k) = m.at(x, y, k);
    r.sendMap(part);
    r.advance(0.3);
    early = drawUpdate(s, m, log);
    w.publish("/costmap_update", early.msg("map", w.time()));
    const ros::Time update_stamp = w.time();
    retained = early.x + early.w > part.w || early.y + early.h > part.h;
    log << " sent to the map of " << part.w << "x" << part.h << "\n";
    r.advance(s.real(0.01, 0.2));
    if (retained && s.chance(1, 4))
    {
      log << " then\n";
      r.sendUpdate(drawUpdate(s, part, log));
      r.advance(0.05);
      retained = false;
    }
    const bool newer = s.chance(1, 3);
    retained = retained && !newer;
    log << " and the map is " << (newer ? "newer" : "older") << "\n";
    r.sendMap(m, newer ? w.time() : update_stamp - ros::Duration(s.flip() ? 0 : 0.5));
    if (retained)
      r.overlay(early);
    c.label(retained ? "early update" : "dropped early update");
  }
  else
    r.sendMap(m);
  r.tf();
  r.advance(0.3);
  bool goal_given = false;
  Cell end{-1, -1, -1};
  const int rounds = s.irange(1, 4);
  for (int i = 0; i < rounds; ++i)
  {
    size_t from = r.ev.size();
    if (i && s.chance(8, 10))
      r.sendUpdate(drawUpdate(s, m, log));
    if (s.chance(1, 12))
    {
      // an update for another map changes nothing
      Map other = m;
      Region u;
      if (s.flip())
        other.a = m.a * 2;
      else
      {
        other.w += s.irange(1, 20);
        other.h += s.irange(1, 20);
      }
      other.c.assign(other.w * other.h * other.a, 0);
      u = drawUpdate(s, other, log);
      if (u.a > m.a || u.x + u.w > m.w || u.y + u.h > m.h)
      {
        r.advance(0.02);
        w.publish("/costmap_update", u.msg("map", w.time()));
        c.label("update for another map");
      }
      else
        r.sendUpdate(u);
    }
    r.tf();
    if (!goal_given)
    {
      r.advance(0.02);
      from = r.ev.size();
      w.publish("/move_base_simple/goal", stamped(goal_pose));
      goal_given = true;
    }
    // what is expected
    const bool start_in = r.cm.in(start.x, start.y, r.range), goal_in = r.cm.in(goal.x, goal.y, r.range);
    bool start_ok = start_in, goal_ok = goal_in;
    std::vector<Cell> starts{start}, goals{goal};
    if (start_in && r.cm.at(start) >= 100)
      starts = r.relocations(start, r.tolRange(), r.tolAngle(), start_ok);
    if (goal_in && r.cm.at(goal) >= 100)
      goals = r.relocations(goal, r.tolRange(), r.tolAngle(), goal_ok);
    // with fast_map_update, a goal once moved is kept as long as it is free
    if (i && r.cfg.fast_map_update && end.x >= 0 && r.cm.at(end) < 100)
    {
      goals.push_back(end);
      goal_ok = true;
    }
    r.advance(r.cfg.sw_wait + 2.0 / r.cfg.freq + 0.05);
    Event last_path, last_status, last_goal;
    bool have_path = false, have_status = false;
    for (size_t k = from; k < r.ev.size(); ++k)
    {
      const Event& e = r.ev[k];
      if (e.kind == Event::PATH)
      {
        PBT_CHECK(!e.velocity_set, "velocity-set", "a linear velocity is given in the path");
        last_path = e;
        have_path = true;
        if (e.path.poses.size() > 1)
        {
          r.checkPath(e.path);
          c.nontrivial();
        }
      }
      else if (e.kind == Event::STATUS)
      {
        last_status = e;
        have_status = true;
      }
      else
        last_goal = e;
    }
    PBT_CHECK(have_status, "no-status", "no status within the planning period");
    if (i == 0 && (!start_in || !goal_in))
    {
      // a goal which cannot be planned for at all is refused (the robot may be off the map)
      PBT_CHECK(have_path && last_path.path.poses.empty(), "refused-goal-path", "path of " << last_path.path.poses.size() << " poses for a goal off the map");
      c.label("refused");
      return;
    }
    const Status& st = last_status.status;
    const size_t n = have_path ? last_path.path.poses.size() : 0;
    PBT_CHECK(have_path, "no-path", "nothing was published on the path topic");
    if (i && r.cfg.fast_map_update && r.cfg.antialias_start && !start_ok)
    {
      // the plan may start from a free neighbour of the robot's cell
      bool neighbour = false;
      for (int k = 0; k < 9; ++k)
      {
        const Cell p{start.x + k % 3 - 1, start.y + k / 3 - 1, start.a};
        neighbour = neighbour || (r.cm.in(p.x, p.y, r.range) && r.cm.at(p) < 100);
      }
      if (neighbour)
      {
        c.label("start beside the robot");
        continue;
      }
    }
    if (!start_ok || !goal_ok)
    {
      PBT_CHECK(n == 0, "rock-path", "path of " << n << " poses though " << (start_ok ? "goal" : "start") << " cannot be relocated");
      PBT_CHECK(st.error == (start_ok ? +Status::PATH_NOT_FOUND : +Status::IN_ROCK), "rock-status", "error " << +st.error);
      c.label("in rock");
      continue;
    }
    if (st.status == Status::FINISHING || st.status == Status::DONE)
    {
      // near enough to the goal: only the final pose is given
      bool near = false;
      const int tl = std::lround(r.cfg.goal_tolerance_lin / m.lr), ta = std::lround(r.cfg.goal_tolerance_ang / m.ar);
      for (const Cell& a : starts)
        for (const Cell& b : goals)
        {
          for (int ex = -1; ex <= 1; ++ex)
            for (int ey = -1; ey <= 1; ++ey)
            {
              if (!r.cfg.antialias_start && (ex || ey))
                continue;
              const int dx = a.x + ex - b.x, dy = a.y + ey - b.y;
              int da = std::abs(a.a - b.a) % m.a;
              da = std::min(da, m.a - da);
              near = near || (dx * dx + dy * dy <= tl * tl && da <= ta);
            }
        }
      PBT_CHECK(near, "finishing-early", "finishing at " << start << " with goal " << goal << " tolerance " << tl << "," << ta);
      c.label("finishing");
      return;
    }
    PBT_CHECK(st.status == Status::DOING, "status", "status " << +st.status);
    // relocated goal is reported
    PBT_CHECK(contains(goals, cellOf(m, last_goal.goal.pose)), "goal-cell", "goal " << cellOf(m, last_goal.goal.pose) << " instead of " << goals[0] << " (" << goals.size() << " choices)");
    end = cellOf(m, last_goal.goal.pose);
    bool maybe = false, surely = false;
    for (const Cell& a : starts)
    {
      maybe = maybe || r.maybeConnected(a, end);
      surely = surely || r.surelyConnected(a, end);
    }
    const int local = std::lround(r.cfg.local_range / m.lr);
    surely = surely && local >= m.w + m.h && starts.size() == 1 && !r.cfg.antialias_start;
    if (!maybe && !r.cfg.antialias_start)
    {
      PBT_CHECK(n == 0 || r.cfg.find_best, "impossible-path", "path of " << n << " poses though start and goal are separated");
      PBT_CHECK(st.error == Status::PATH_NOT_FOUND, "impossible-status", "error " << +st.error << " with a path of " << n << " poses");
      c.label("separated");
      continue;
    }
    if (surely)
    {
      PBT_CHECK(st.error == Status::GOING_WELL, "missed-plan", "error " << +st.error << " though start " << start << " and goal " << end << " are connected");
      c.label("surely connected");
    }
    if (n == 0)
    {
      PBT_CHECK(st.error != Status::GOING_WELL, "empty-going-well", "empty path with good status");
      c.label("empty");
      continue;
    }
    const Cell first = cellOf(m, last_path.path.poses.front().pose), last = cellOf(m, last_path.path.poses.back().pose);
    if (r.cfg.antialias_start && r.cm.at(start) < 100)
      PBT_CHECK(std::abs(first.x - start.x) <= 1 && std::abs(first.y - start.y) <= 1 && first.a == start.a, "path-start", "path starts in " << first << " and the robot is in " << start);
    else if (!r.cfg.antialias_start)
      PBT_CHECK(contains(starts, first), "path-start", "path starts in " << first << " instead of " << starts[0] << " (" << starts.size() << " choices)");
    if (st.error == Status::GOING_WELL)
    {
      if (!(last == end))
      {
        // Only the part within the local range may be given.
        const std::vector<double> f = r.field(end);
        const double ec = 1.0 / r.cfg.max_vel;
        // measured from where the path may start
        double from_start = f[start.x + start.y * m.w];
        if (r.cm.at(start) >= 100)
        {
          std::vector<Cell> firsts = starts;
          for (int k = 0; r.cfg.antialias_start && k < 9; ++k)
            firsts.push_back({start.x + k % 3 - 1, start.y + k / 3 - 1, start.a});
          for (const Cell& p : firsts)
            if (r.cm.in(p.x, p.y, 0) && f[p.x + p.y * m.w] < 1e9)
              from_start = std::max(from_start, f[p.x + p.y * m.w]);
        }
        const double limit = from_start - (local + r.range) * ec;
        if (!r.cfg.fast_map_update && !r.cfg.remember_updates && r.cm.rough(start.x, start.y) < 100)
          PBT_CHECK(f[last.x + last.y * m.w] < limit + 1e-3 * (1 + std::abs(limit)), "path-end",
                    "path ends in " << last << " (" << f[last.x + last.y * m.w] << ") and not in " << end << "; limit " << limit);
        c.label("partial");
      }
      else
        c.label("to the goal");
    }
    else
    {
      PBT_CHECK(r.cfg.find_best, "bad-path", "a path with error " << +st.error);
      c.label("best effort");
    }
  }
}

PBT_FACET(make_plan, 1, "the service gave a plan of more than one pose")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  Rig r;
  MapGen g;
  g.long_robot = s.chance(4, 10);
  g.costs = s.chance(7, 10);
  g.unknown = s.chance(3, 10);
  Map m = genMap(s, g, 6, 24, log);
  drawConfig(s, r, m);
  r.begin(log);
  sim::World& w = r.w;
  const auto ask = [&](const Pose& from, const Pose& to, double tolerance, const std::string& f0, const std::string& f1, nav_msgs::GetPlanResponse& res)
  {
    nav_msgs::GetPlanRequest req;
    req.start = stamped(from);
    req.goal = stamped(to);
    req.start.header.frame_id = f0;
    req.goal.header.frame_id = f1;
    req.tolerance = tolerance;
    bool ran = false;
    const bool ok = w.call("/planner_3d/make_plan", req, res, ran, 3.0);
    r.alive();
    PBT_CHECK(ran, "not-served", "make_plan was not served");
    return ok;
  };
  nav_msgs::GetPlanResponse res;
  if (s.chance(1, 20))
    PBT_CHECK(!ask(Pose(), Pose(), 0, "map", "map", res), "plan-without-map", "a plan was given without a map");
  if (s.chance(8, 10))
    r.tf();  // the robot is not needed
  r.sendMap(m);
  r.advance(0.1);
  const int n = s.irange(1, 4);
  for (int i = 0; i < n; ++i)
  {
    if (s.chance(3, 10))
    {
      r.sendUpdate(drawUpdate(s, m, log));
      r.advance(0.1);
    }
    Cell a = drawCell(s, m, s.chance(9, 10) ? r.range : -1), b = drawCell(s, m, s.chance(9, 10) ? r.range : -1);
    if (s.chance(1, 10))
      b.x = a.x, b.y = a.y;
    const int tol = s.irange(0, 4);
    const Pose pa = inCell(s, m, a, 0.45), pb = inCell(s, m, b, 0.45);
    log << "ask " << a << " to " << b << " tolerance " << tol << "\n";
    if (s.chance(1, 20))
    {
      PBT_CHECK(!ask(pa, pb, tol * m.lr, s.flip() ? "odom" : "map", "odom", res), "plan-wrong-frame", "a plan was given for a wrong frame");
      continue;
    }
    const bool ok = ask(pa, pb, tol * m.lr, "map", "map", res);
    bool a_ok = r.cm.in(a.x, a.y, r.range), b_ok = r.cm.in(b.x, b.y, r.range);
    a.a = b.a = 0;
    std::vector<Cell> as{a}, bs{b};
    if (a_ok && r.cm.rough(a.x, a.y) >= 100)
      as = r.relocations(a, tol, 0, a_ok, true);
    if (b_ok && r.cm.rough(b.x, b.y) >= 100)
      bs = r.relocations(b, tol, 0, b_ok, true);
    if (!a_ok || !b_ok)
    {
      PBT_CHECK(!ok, "plan-in-rock", "a plan was given though the " << (a_ok ? "goal" : "start") << " is off the map or occupied");
      c.label("refused");
      continue;
    }
    bool maybe = false, surely = true;
    for (const Cell& x : as)
      for (const Cell& y : bs)
      {
        maybe = maybe || r.maybeConnected(x, y);
        surely = surely && r.roughlyConnected(x, y);
      }
    if (!maybe)
    {
      PBT_CHECK(!ok, "impossible-plan", "a plan of " << res.plan.poses.size() << " poses though start and goal are separated");
      c.label("separated");
      continue;
    }
    if (surely)
      PBT_CHECK(ok, "missed-service-plan", "no plan from " << as[0] << " to " << bs[0]);
    if (!ok)
      continue;
    PBT_CHECK(!res.plan.poses.empty(), "empty-plan", "success with an empty plan");
    r.checkPath(res.plan, true);
    const Cell first = cellOf(m, res.plan.poses.front().pose), last = cellOf(m, res.plan.poses.back().pose);
    const auto among = [](const std::vector<Cell>& v, const Cell& p)
    { return std::any_of(v.begin(), v.end(), [&](const Cell& q) { return p.x == q.x && p.y == q.y; }); };
    PBT_CHECK(among(as, first), "plan-start", "plan starts in " << first << " instead of " << as[0] << " (" << as.size() << " choices)");
    PBT_CHECK(among(bs, last), "plan-end", "plan ends in " << last << " instead of " << bs[0] << " (" << bs.size() << " choices)");
    c.nontrivial(res.plan.poses.size() > 1);
    c.label(as[0] == a && bs[0] == b ? "planned" : "planned after relocation");
  }
}

// The goal cannot be reached: a temporary one near the robot is chosen instead.
PBT_FACET(escape, 1, "a temporary goal was chosen")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  Rig r;
  MapGen g;
  g.long_robot = s.chance(4, 10);
  g.costs = s.chance(7, 10);
  Map m = genMap(s, g, 12, 30, log);
  drawConfig(s, r, m);
  r.crowd = s.flip();
  r.cfg.temporary_escape = true;
  r.cfg.antialias_start = false;
  r.cfg.find_best = false;
  r.cfg.sw_wait = 0;
  const int esc = s.irange(1, 6);
  r.cfg.esc_range = esc * m.lr;
  r.cfg.esc_range_min_ratio = s.pick({0.5, 0.0, 0.75, 1.0});
  const int esc_min = std::lround(static_cast<double>(r.cfg.esc_range) * r.cfg.esc_range_min_ratio / m.lr);
  const int tol_lin = s.irange(0, 2), tol_ang = s.irange(0, 1);
  r.cfg.temporary_escape_tolerance_lin = tol_lin * m.lr;
  r.cfg.temporary_escape_tolerance_ang = tol_ang * m.ar;
  // separate the robot from the goal, or occupy the goal
  const Cell start = drawCell(s, m, r.range + 1), goal = drawCell(s, m, r.range);
  const bool by_update = s.flip();
  Region up;
  up.w = m.w;
  up.h = m.h;
  up.a = m.a;
  {
    Map t = m;
    std::fill(t.c.begin(), t.c.end(), 0);
    Map& q = by_update ? t : m;
    switch (s.weighted({4, 4, 1}))
    {
      case 0:
      {
        const int d = s.irange(1, 6), th = s.irange(1, 4);
        for (int k = 0; k < th; ++k)
        {
          const int l = d + k;
          blob(q, start.x - l, start.y - l, start.x + l, start.y - l, 100, 0);
          blob(q, start.x - l, start.y + l, start.x + l, start.y + l, 100, 0);
          blob(q, start.x - l, start.y - l, start.x - l, start.y + l, 100, 0);
          blob(q, start.x + l, start.y - l, start.x + l, start.y + l, 100, 0);
        }
        log << "ring " << d << "+" << th << " around the robot";
        break;
      }
      case 1:
      {
        const int d = s.irange(0, 5);
        blob(q, goal.x - d, goal.y - d, goal.x + d, goal.y + d, 100, 0);
        log << "block " << d << " around the goal";
        break;
      }
      default:
        log << "no separation";
    }
    log << (by_update ? " by update\n" : "\n");
    up.c.assign(t.c.begin(), t.c.end());
  }
  r.cfg.overwrite_cost = false;
  log << "start " << start << " goal " << goal << " escape range " << esc_min << ".." << esc << "\n";
  r.begin(log);
  sim::World& w = r.w;
  r.robot = m.pose(start);
  r.tf();
  r.advance(0.05);
  r.sendMap(m);
  r.advance(0.3);
  w.publish("/move_base_simple/goal", stamped(m.pose(goal)));
  r.tf();
  if (by_update)
    r.sendUpdate(up);
  else if (s.flip())
  {
    std::fill(up.c.begin(), up.c.end(), 0);
    r.sendUpdate(up);
  }
  const int ea = m.a / 8;
  Cell robot = start;
  const int rounds = s.irange(1, 4);
  bool escaping = false;
  std::vector<Cell> goals_before, chosen;
  if (by_update && m.at(goal) >= 100)
  {
    Rig q;
    q.cfg = r.cfg;
    q.range = r.range;
    q.cm = m.known(r.unknown_cost);
    bool found;
    goals_before = q.relocations(goal, r.tolRange(), r.tolAngle(), found);
  }
  for (int i = 0; i < rounds; ++i)
  {
    size_t from = r.ev.size();
    r.tf();
    r.advance(3.0 / r.cfg.freq + 0.05);
    Event st, cg;
    bool have = false;
    for (size_t k = from; k < r.ev.size(); ++k)
    {
      const Event& e = r.ev[k];
      if (e.kind == Event::STATUS)
        st = e;
      else if (e.kind == Event::GOAL)
      {
        cg = e;
        have = true;
      }
      else if (e.path.poses.size() > 1)
        r.checkPath(e.path);
    }
    PBT_CHECK(have, "no-goal", "the current goal is not published");
    const Cell cur = cellOf(m, cg.goal.pose);
    bool goal_found = true;
    std::vector<Cell> goals{goal};
    if (r.cm.at(goal) >= 100)
      goals = r.relocations(goal, r.tolRange(), r.tolAngle(), goal_found);
    // where it was before the update occupied it
    goals_before.insert(goals_before.end(), goals.begin(), goals.end());
    goals = goals_before;
    if (st.status.error == Status::IN_ROCK)
    {
      c.label("robot in rock");
      continue;
    }
    if (contains(goals, cur) || cur == goal)
    {
      escaping = false;
      c.label("original goal");
      if (st.status.status == Status::FINISHING || st.status.status == Status::DONE)
        return;
    }
    else
    {
      // the robot stands still: the temporary goal is chosen around its cell
      escaping = true;
      c.nontrivial();
      // in crowd mode around the robot or the cell a robot in an occupied one is moved to
      std::vector<Cell> around;
      bool robot_found = true;
      if (r.crowd && r.cm.at(robot) >= 100)
        around = r.relocations(robot, r.tolRange(), r.tolAngle(), robot_found);
      around.push_back(robot);
      int d2 = 0;
      for (size_t k = 0; k < around.size(); ++k)
      {
        const int dx = cur.x - around[k].x, dy = cur.y - around[k].y, v = dx * dx + dy * dy;
        if (k == 0 || (v <= esc * esc && v >= esc_min * esc_min))
          d2 = v;
      }
      // a goal chosen earlier may be kept when the map or the robot's cell changed since
      // and one chosen before the update of the map is moved when it is occupied by that
      const bool kept = contains(chosen, cur) || (r.crowd && by_update && i == 0);
      chosen.push_back(cur);
      PBT_CHECK(r.cm.in(cur.x, cur.y, r.range), "escape-border", "temporary goal " << cur << " is at the border of the map");
      PBT_CHECK(r.cm.at(cur) < 100, "escape-occupied", "temporary goal " << cur << " is occupied (" << r.cm.at(cur) << ")");
      PBT_CHECK(kept || d2 <= esc * esc, "escape-far", "temporary goal " << cur << " is " << std::sqrt(d2) << " cells from the robot at " << robot << ", range " << esc);
      PBT_CHECK(kept || d2 >= esc_min * esc_min, "escape-near", "temporary goal " << cur << " is " << std::sqrt(d2) << " cells from the robot at " << robot << ", at least " << esc_min);
      if (!r.crowd)
      {
        bool found = true;
        const std::vector<Cell> best = r.relocations(robot, esc, ea, found, false, esc_min);
        PBT_CHECK(kept || contains(best, cur), "escape-choice", "temporary goal " << cur << " instead of " << best[0] << " (" << best.size() << " choices)");
        PBT_CHECK(st.status.error != Status::GOING_WELL, "escape-status", "error " << +st.status.error << " while escaping");
      }
      else
      {
        PBT_CHECK(kept || r.cm.at(cur) < r.cfg.relocation_acceptable_cost, "escape-cost", "temporary goal " << cur << " costs " << r.cm.at(cur));
        PBT_CHECK(kept || std::any_of(around.begin(), around.end(), [&](const Cell& p)
                              { return r.maybeConnected(p, cur); }), "escape-cut-off", "temporary goal " << cur << " cannot be reached from " << robot);
        c.label(st.status.error == Status::GOING_WELL ? "escaping with improvement" : "escaping");
      }
      PBT_CHECK(st.status.status == Status::DOING, "escape-finishing", "status " << +st.status.status << " with a temporary goal");
    }
    // go there, or away
    switch (s.weighted({escaping ? 6 : 0, 2, 1}))
    {
      case 0:
      {
        robot = cur;
        r.robot = m.pose(robot);
        log << " robot goes to the temporary goal " << cur << "\n";
        r.tf();
        from = r.ev.size();
        r.advance(2.5 / r.cfg.freq);
        bool back = false;
        for (size_t k = from; k < r.ev.size(); ++k)
          if (r.ev[k].kind == Event::GOAL)
          {
            const Cell now_goal = cellOf(m, r.ev[k].goal.pose);
            back = back || contains(goals, now_goal) || now_goal == goal || !(now_goal == cur);
          }
          else if (r.ev[k].kind == Event::STATUS)
            // after the original goal is restored the robot may be found to be there
            PBT_CHECK(back || r.ev[k].status.status != Status::DONE, "escape-done", "finished at the temporary goal");
        PBT_CHECK(back, "escape-stuck", "the robot reached the temporary goal " << cur << " but the goal was not restored");
        c.label("escaped");
        break;
      }
      case 1:
        log << " wait\n";
        break;
      default:
        if (by_update)
        {
          std::fill(up.c.begin(), up.c.end(), 0);
          r.sendUpdate(up);
          log << " obstacles go away\n";
        }
    }
  }
}

// Travel distance to e over a map without obstacles, in cells, by steps of up to four cells.
std::vector<double> openDistance(const Map& m, const Cell& e)
{
  std::vector<double> d(m.w * m.h, HUGE_VAL);
  using Q = std::pair<double, int>;
  std::priority_queue<Q, std::vector<Q>, std::greater<Q>> q;
  d[e.x + e.y * m.w] = 0;
  q.push({0, e.x + e.y * m.w});
  while (!q.empty())
  {
    const Q t = q.top();
    q.pop();
    if (t.first > d[t.second])
      continue;
    for (int dx = -4; dx <= 4; ++dx)
      for (int dy = -4; dy <= 4; ++dy)
      {
        const int x = t.second % m.w + dx, y = t.second / m.w + dy;
        if (dx * dx + dy * dy > 16 || x < 0 || y < 0 || x >= m.w || y >= m.h)
          continue;
        const double n = t.first + std::hypot(dx, dy);
        if (n < d[x + y * m.w] - 1e-9)
        {
          d[x + y * m.w] = n;
          q.push({n, x + y * m.w});
        }
      }
  }
  return d;
}

PBT_FACET(escape_request, 1, "an escape was requested while there was a goal and its outcome judged")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  Rig r;
  MapGen g;
  g.long_robot = s.chance(2, 10);
  g.costs = s.flip();
  Map m = genMap(s, g, 14, 34, log);
  const bool open = s.chance(4, 10);
  if (open)
  {
    std::fill(m.c.begin(), m.c.end(), 0);
    log << "open map\n";
  }
  drawConfig(s, r, m);
  r.crowd = s.chance(7, 10);
  r.cfg.temporary_escape = true;
  r.cfg.antialias_start = r.cfg.find_best = r.cfg.remember_updates = false;
  r.cfg.sw_wait = 0;
  r.cfg.relocation_acceptable_cost = s.pick({50, 10, 99});
  const int esc = s.irange(1, 7);
  r.cfg.esc_range = esc * m.lr;
  r.cfg.esc_range_min_ratio = s.pick({0.5, 0.0, 0.75, 1.0});
  const int esc_min = std::lround(static_cast<double>(r.cfg.esc_range) * r.cfg.esc_range_min_ratio / m.lr);
  r.cfg.temporary_escape_tolerance_lin = r.cfg.temporary_escape_tolerance_ang = 0;
  log << (r.crowd ? "crowd mode, " : "") << "escape range " << esc_min << ".." << esc << "\n";
  r.begin(log);
  sim::World& w = r.w;
  Cell robot = drawCell(s, m, r.range);
  r.robot = m.pose(robot);
  r.tf();
  r.advance(0.05);
  r.sendMap(m);
  r.advance(0.3);
  const auto request = [&]
  {
    r.tf();
    w.publish("/planner_3d/temporary_escape", std_msgs::Empty());
    r.advance(2.5 / r.cfg.freq + 0.02);
  };
  if (s.chance(1, 4))
  {
    log << "request without a goal\n";
    request();
    for (const Event& e : r.ev)
      PBT_CHECK(e.kind != Event::PATH || e.path.poses.empty(), "escape-without-goal", "a path of " << e.path.poses.size() << " poses without a goal");
  }
  const int ea = m.a / 8;
  const int rounds = s.irange(1, 3);
  for (int i = 0; i < rounds; ++i)
  {
    robot = drawCell(s, m, r.range);
    const bool near_by = s.chance(4, 10);
    Cell goal = drawCell(s, m, r.range);
    if (near_by)
    {
      goal.x = std::min(std::max(robot.x + s.irange(-esc, esc), 0), m.w - 1);
      goal.y = std::min(std::max(robot.y + s.irange(-esc, esc), 0), m.h - 1);
    }
    const int gd2 = (goal.x - robot.x) * (goal.x - robot.x) + (goal.y - robot.y) * (goal.y - robot.y);
    log << "robot " << robot << " goal " << goal << "\n";
    r.robot = m.pose(robot);
    r.tf();
    w.publish("/move_base_simple/goal", stamped(m.pose(goal)));
    r.advance(2.5 / r.cfg.freq + 0.02);
    if (!r.cm.in(goal.x, goal.y, r.range) || r.cm.at(goal) >= 100 || !r.cm.in(robot.x, robot.y, r.range) || r.cm.at(robot) >= 100 ||
        gd2 <= 9)  // otherwise the robot may have arrived, or is moved out of an obstacle
      continue;
    size_t from = r.ev.size();
    request();
    Event st, cg;
    bool have = false;
    for (size_t k = from; k < r.ev.size(); ++k)
    {
      const Event& e = r.ev[k];
      if (e.kind == Event::STATUS)
        st = e;
      else if (e.kind == Event::GOAL)
      {
        cg = e;
        have = true;
      }
      else if (e.path.poses.size() > 1)
        r.checkPath(e.path);
    }
    PBT_CHECK(have, "no-goal", "the current goal is not published");
    c.nontrivial();
    const Cell cur = cellOf(m, cg.goal.pose);
    const bool original = cur == goal && std::hypot(cg.goal.pose.position.x - m.pose(goal).x, cg.goal.pose.position.y - m.pose(goal).y) < 1e-6;
    const int dx = cur.x - robot.x, dy = cur.y - robot.y, d2 = dx * dx + dy * dy;
    log << " now to " << cur << "\n";
    if (!r.crowd)
    {
      // a goal that cannot be reached is replaced by the same temporary one
      bool found = true;
      const std::vector<Cell> best = r.relocations(robot, esc, ea, found, false, esc_min);
      if (found)
      {
        PBT_CHECK(contains(best, cur), "request-choice", "goal " << cur << " after a request to escape, instead of " << best[0] << " (" << best.size() << " choices)");
        PBT_CHECK(st.status.status == Status::DOING, "request-status", "status " << +st.status.status << " with a temporary goal");
      }
      else
        PBT_CHECK(original, "request-nowhere", "goal " << cur << " though there is no place to escape to");
      c.label("plain");
      continue;
    }
    if (!r.cm.in(robot.x, robot.y, esc))
    {
      // escape is disabled there
      PBT_CHECK(original, "request-border", "goal " << cur << " instead of " << goal << " with the robot " << robot << " at the border");
      c.label("border");
      continue;
    }
    bool clear = gd2 <= esc * esc;
    for (int x = std::min(goal.x, robot.x) - 1; clear && x <= std::max(goal.x, robot.x) + 1; ++x)
      for (int y = std::min(goal.y, robot.y) - 1; clear && y <= std::max(goal.y, robot.y) + 1; ++y)
        for (int a = 0; clear && a < m.a; ++a)
          clear = r.cm.in(x, y, 0) && r.cm.at(x, y, a) == 0;
    if (clear)
    {
      PBT_CHECK(original, "request-reachable", "temporary goal " << cur << " though the goal " << goal << " is within the escape range of the robot at " << robot << " and nothing is between");
      c.label("goal reachable");
      continue;
    }
    if (original)
    {
      PBT_CHECK(!open, "request-ignored", "the goal stays " << cur << " after a request to escape");
      c.label("kept");
      continue;
    }
    c.label("escaping");
    PBT_CHECK(r.cm.in(cur.x, cur.y, r.range) && r.cm.at(cur) < 100, "request-occupied", "temporary goal " << cur << " (" << r.cm.at(cur) << ") is not free or at the border");
    PBT_CHECK(r.cm.at(cur) < r.cfg.relocation_acceptable_cost, "request-cost", "temporary goal " << cur << " costs " << r.cm.at(cur));
    PBT_CHECK(d2 <= esc * esc && d2 >= esc_min * esc_min && d2 > 0, "request-distance", "temporary goal " << cur << " is " << std::sqrt(d2) << " cells from the robot at " << robot);
    PBT_CHECK(r.maybeConnected(robot, cur), "request-cut-off", "temporary goal " << cur << " cannot be reached from " << robot);
    PBT_CHECK(st.status.status == Status::DOING, "request-status", "status " << +st.status.status << " with a temporary goal");
    if (open)
    {
      const std::vector<double> d = openDistance(m, goal);
      double least = HUGE_VAL;
      for (int x = robot.x - esc; x <= robot.x + esc; ++x)
        for (int y = robot.y - esc; y <= robot.y + esc; ++y)
        {
          const int q = (x - robot.x) * (x - robot.x) + (y - robot.y) * (y - robot.y);
          if (q > 0 && q <= esc * esc && q >= esc_min * esc_min && m.in(x, y, r.range))
            least = std::min(least, d[x + y * m.w]);
        }
      const double at = d[cur.x + cur.y * m.w];
      PBT_CHECK(at < least + 1e-3, "request-detour", "temporary goal " << cur << " is " << at << " cells from the goal " << goal << ", another " << least);
      if (at + 6 < d[robot.x + robot.y * m.w] || at > 3)
      {
        double gx = 0, gy = 0;
        for (int x = -1; x <= 1; ++x)
          for (int y = -1; y <= 1; ++y)
          {
            const double f = d[cur.x + x + (cur.y + y) * m.w] - at;
            gx -= f * x;
            gy -= f * y;
          }
        const double off = norm(cur.a * m.ar - std::atan2(gy, gx));
        PBT_CHECK(std::abs(off) < m.ar + 0.02, "request-heading", "temporary goal " << cur << " points " << off << " rad off the way to " << goal);
      }
      c.label("open map");
    }
  }
}

// A plan with a change between driving forward and backward: the pose after the change, or 0.
// ambiguous when a piece is driven sideways.
size_t switchBack(const nav_msgs::Path& p, bool& ambiguous)
{
  int dir = 0;
  ambiguous = false;
  for (size_t i = 1; i < p.poses.size(); ++i)
  {
    const auto &a = p.poses[i - 1].pose, &b = p.poses[i].pose;
    const double dx = b.position.x - a.position.x, dy = b.position.y - a.position.y, l = std::hypot(dx, dy);
    ambiguous = ambiguous || std::abs(l - 1e-3) < 1e-5;
    if (l < 1e-3)
      continue;
    const double y = yawOf(b.orientation), f = (std::cos(y) * dx + std::sin(y) * dy) / l;
    ambiguous = ambiguous || std::abs(f) < 1e-3;
    const int d = f < 0 ? -1 : 1;
    if (dir && d != dir)
      return i;
    dir = d;
  }
  return 0;
}
PBT_FACET(cadence, 1, "at least three plans of more than one pose were judged and one of them had a switch back or was replaced for a reason")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  Rig r;
  MapGen g;
  g.long_robot = s.chance(3, 10);
  g.costs = s.flip();
  Map m = genMap(s, g, 10, 26, log);
  drawConfig(s, r, m);
  r.cfg.remember_updates = false;
  r.cfg.sw_wait = s.pick({2.0, 0.7, 0.0, 4.0});
  r.cfg.freq = s.pick({4.0, 10.0, 1.0});
  r.cfg.find_best = false;
  r.cfg.max_retry_num = -1;
  r.cfg.keep_a_part_of_previous_path = s.chance(2, 10);
  r.cfg.goal_tolerance_lin = s.pick({2.0, 1.0, 0.0}) * m.lr;
  r.cfg.goal_tolerance_ang = s.pick({1.0, 2.0, 0.0}) * m.ar;
  const bool trigger = r.cfg.trigger_plan_by_costmap_update = s.chance(2, 10);
  r.cfg.costmap_watchdog = 0;
  r.pos_jump = s.chance(3, 10) ? 1.0 : 1e6;
  r.begin(log);
  sim::World& w = r.w;
  const Cell start = drawCell(s, m, r.range), goal = drawCell(s, m, r.range);
  r.robot = inCell(s, m, start, 0.3);
  log << "trigger=" << trigger << " pos_jump=" << r.pos_jump << " start " << start << " goal " << goal << "\n";
  r.tf();
  r.advance(0.05);
  r.sendMap(m);
  r.tf();
  r.advance(0.3);
  size_t seen = r.ev.size();
  w.publish("/move_base_simple/goal", stamped(m.pose(goal)));
  r.advance(0.03);
  bool accepted = false;
  for (; seen < r.ev.size(); ++seen)
    accepted = accepted || (r.ev[seen].kind == Event::STATUS && r.ev[seen].status.status == Status::DOING);
  if (!accepted)
    return;
  const double inf = 1e18, ms = 1e-3;
  const auto now = [&]
  { return w.now * 1e-9; };
  double due = -1, possible = inf, definite = inf;  // of the next plan; unknown before the first one
  std::string why;
  nav_msgs::Path plan;
  size_t sw = 0;
  bool sw_ambiguous = false;
  int good = 0, special = 0;
  double acted = -inf;  // the latest event which may be handled once more after a plan
  // How surely a cell of the plan is occupied: 0 no, 1 maybe, 2 yes
  const auto blocked = [&]
  {
    int v = 0;
    if (plan.poses.size() <= 1)
      return 0;
    for (const auto& q : plan.poses)
    {
      const double gx = (q.pose.position.x - r.cm.ox) / r.cm.lr, gy = (q.pose.position.y - r.cm.oy) / r.cm.lr, ga = norm(yawOf(q.pose.orientation)) / r.cm.ar;
      int n = 0, hit = 0;
      for (const double ex : {-2e-3, 2e-3})
        for (const double ey : {-2e-3, 2e-3})
          for (const double ea : {-2e-3, 2e-3})
          {
            const int x = std::floor(gx + ex), y = std::floor(gy + ey), k = ((std::lround(ga + ea) % r.cm.a) + r.cm.a) % r.cm.a;
            ++n;
            hit += r.cm.in(x, y) && r.cm.at(x, y, k) == 100;
          }
      v = std::max(v, hit == n ? 2 : hit ? 1 : 0);
    }
    return v;
  };
  // How surely the robot is at the switch back.
  const auto arrived = [&]
  {
    if (!sw)
      return 0;
    int v = 0, all = 2;
    for (const size_t i : {sw - 1, sw})
    {
      const auto& q = plan.poses[i].pose;
      const double l = std::hypot(q.position.x - r.robot.x, q.position.y - r.robot.y), a = std::abs(norm(yawOf(q.orientation) - r.robot.a));
      if (l < r.cfg.goal_tolerance_lin + 1e-3 && a < r.cfg.goal_tolerance_ang + 1e-3)
        v = 1;
      if (!(l < r.cfg.goal_tolerance_lin - 1e-3 && a < r.cfg.goal_tolerance_ang - 1e-3))
        all = 0;
    }
    return all ? 2 : v;
  };
  const auto mark = [&](int sure, const char* what)
  {
    if (sure >= 1)
    {
      possible = std::min(possible, now());
      why = what;
    }
    if (sure >= 2)
      definite = std::min(definite, now());
  };
  const int steps = s.irange(3, 14);
  for (int i = 0; i < steps; ++i)
  {
    int updates = 0, jump = 0;
    const bool moving = plan.poses.size() > 1;
    switch (s.weighted({3, 2, moving ? 3 : 0, moving ? 4 : 0, 1}))
    {
      case 0:
        log << " wait";
        break;
      case 1:
        r.sendUpdate(drawUpdate(s, m, log));
        updates = 1;
        break;
      case 2:
      {
        const Cell q = cellOf(m, plan.poses[s.irange(0, plan.poses.size() - 1)].pose);
        const int d = s.irange(0, 2), ox = s.irange(-3, 3), oy = s.irange(-3, 3);
        Region u;
        u.x = std::max(0, q.x + ox - d);
        u.y = std::max(0, q.y + oy - d);
        u.w = std::min(m.w - 1, q.x + ox + d) - u.x + 1;
        u.h = std::min(m.h - 1, q.y + oy + d) - u.y + 1;
        u.a = m.a;
        if (u.w < 1 || u.h < 1)
          break;
        u.c.assign(u.w * u.h * u.a, s.chance(4, 5) ? 100 : 99);
        log << " block " << u.x << "," << u.y << " +" << u.w << "," << u.h << " " << u.c[0];
        r.sendUpdate(u);
        updates = 1;
        break;
      }
      case 3:
      {
        const size_t k = sw && s.chance(2, 3) ? sw - s.irange(0, 1) : s.irange(0, plan.poses.size() - 1);
        const auto& q = plan.poses[k].pose;
        const double e = s.pick({0.0, 0.3, 0.9, 1.5});
        const Pose to{q.position.x + s.sym(e) * m.lr, q.position.y + s.sym(e) * m.lr, norm(yawOf(q.orientation) + s.sym(e) * m.ar)};
        const double d = std::hypot(to.x - r.robot.x, to.y - r.robot.y);
        r.robot = to;
        log << " robot at pose " << k << ": " << r.robot.x << " " << r.robot.y << " " << r.robot.a;
        jump = d > r.pos_jump + 1e-3 ? 2 : d > r.pos_jump - 1e-3 ? 1 : 0;
        acted = d > r.pos_jump - 1e-3 ? now() : acted;
        break;
      }
      default:
      {
        const Pose to = inCell(s, m, drawCell(s, m, r.range), 0.3);
        const double d = std::hypot(to.x - r.robot.x, to.y - r.robot.y);
        r.robot = to;
        log << " robot goes to " << to.x << " " << to.y << " " << to.a;
        jump = d > r.pos_jump + 1e-3 ? 2 : d > r.pos_jump - 1e-3 ? 1 : 0;
        acted = d > r.pos_jump - 1e-3 ? now() : acted;
      }
    }
    r.tf();
    if (definite < inf && now() - definite < 0.03 && arrived() < 2)
      definite = inf;  // the robot left before the node could see it
    if (updates)
    {
      mark(blocked(), "the plan is blocked");
      acted = now();
    }
    mark(jump, "the robot jumped");
    mark(arrived(), "the switch back is reached");
    const double dt = s.real(0.06, 0.9);
    r.advance(dt);
    log << ", " << dt << " s";
    int plans = 0;
    for (; seen < r.ev.size(); ++seen)
    {
      const Event& e = r.ev[seen];
      if (e.kind == Event::PATH)
        plan = e.path;
      if (e.kind != Event::STATUS)
        continue;
      ++plans;
      const double t = e.t * 1e-9;
      log << " [" << t << ": " << plan.poses.size() << "]";
      if (e.status.status != Status::DOING)
      {
        c.label("goal reached");
        return;
      }
      if (!trigger && due >= 0)
      {
        const double from = std::min(due, possible), to = std::min(due, definite) + 0.03;
        PBT_CHECK(t >= from - ms, "early", "planned at " << t << " although the plan has to be kept until " << due << (sw ? " (switch back)" : ""));
        PBT_CHECK(t <= to, "late", "planned at " << t << " instead of " << to - 0.03 << (definite < due ? " when " + why : ""));
        if (t < due - ms)
        {
          c.label(why);
          ++special;
        }
        else if (sw)
        {
          c.label("waited at the switch back");
          ++special;
        }
      }
      if (plan.poses.size() > 1)
        ++good;
      sw = r.cfg.keep_a_part_of_previous_path || r.cfg.sw_wait <= 0 ? 0 : switchBack(plan, sw_ambiguous);
      if (sw_ambiguous)
      {
        c.label("ambiguous direction");
        return;
      }
      due = t + (sw ? r.cfg.sw_wait : 1.0 / r.cfg.freq);
      possible = definite = inf;
      if (t - acted < 0.03)
        possible = t;  // may be handled after the plan
      const int a = arrived();
      if (a)
      {
        possible = t;
        why = "the switch back is reached";
      }
      if (a == 2)
        definite = t;
    }
    if (trigger)
      PBT_CHECK(plans == updates, "trigger", plans << " plans for " << updates << " updates of the costmap");
    else if (due >= 0)
      PBT_CHECK(now() <= std::min(due, definite) + 0.03, "late", "nothing planned by " << now() << ", due at " << std::min(due, definite) << (definite < due ? ": " + why : ""));
    else
      PBT_CHECK(now() - r.ev.front().t * 1e-9 < 10, "never", "nothing is planned");
    log << "\n";
  }
  c.labelIf(trigger, "triggered by updates");
  c.nontrivial(good >= 3 && (special || trigger));
}

using MoveRec = std::shared_ptr<actionlib::GoalRecord<move_base_msgs::MoveBaseAction>>;
using TolRec = std::shared_ptr<actionlib::GoalRecord<planner_cspace_msgs::MoveWithToleranceAction>>;
using GS = actionlib_msgs::GoalStatus;

// A long history of maps, updates, poses, goals, losses and parameter changes.
// The model knows the inputs the node was given last and whether it has a goal.
struct Life : Rig
{
  enum Have
  {
    NONE,
    SET,
    UNKNOWN
  };
  struct Goal
  {
    bool cleared = false;  // by a goal without orientation
    int server = 0;  // topic, move_base, tolerant_move
    Pose pose;
    MoveRec move;
    TolRec tol;
    bool cancelled = false, replaced = false, refusable = false;
    bool near = false, stuck = false, ended = false;
    int status() const { return move ? move->status : tol->status; }
    int terminals() const { return move ? move->terminal_count : tol->terminal_count; }
    std::string misuse() const { return move ? move->misuse : tol->misuse; }
    std::string text() const { return move ? move->text : tol->text; }
  };
  Ctx& c;
  Src& s;
  std::ostream& log;
  Have have = NONE;
  std::vector<Goal> goals;  // the latest is the current one
  bool trigger = false, blackout = false, tf_sent = false, off_map = false, escape = false;
  double slack = 0.3, period_max = 0;
  double updated = -1e9, none_since = -1e9;
  bool moving = false;  // the latest path is not empty
  Cell cur{-1, -1, -1};
  int last_error = -1, last_status = -1;
  size_t seen = 0;
  nav_msgs::Path latest;
  Life(Ctx& ctx, std::ostream& o) : c(ctx), s(ctx.src), log(o) {}
  double t(int64_t ns) const { return ns * 1e-9; }
  double now() const { return t(w.now); }
  double period() const { return std::max(1.0 / cfg.freq, cfg.keep_a_part_of_previous_path ? 0.0 : cfg.sw_wait); }
  void none(double at)
  {
    if (have != NONE)
      none_since = at;
    have = NONE;
  }
  Cell robotCell() const { return base.cell(robot); }
  bool stale(double at) const { return cfg.costmap_watchdog > 0 && at > updated + cfg.costmap_watchdog; }
  // Within the goal tolerance, whichever way an occupied robot or goal cell is moved.
  bool near(const Goal& g) const
  {
    if (!has_map)
      return false;
    const Cell rc = robotCell(), gc = base.cell(g.pose);
    std::vector<Cell> as{rc}, bs{gc};
    if (cur.x >= 0)
      bs.push_back(cur);
    bool f;
    if (cm.in(gc.x, gc.y, range) && cm.at(gc) >= 100)
      for (const Cell& q : relocations(gc, tolRange(), tolAngle(), f))
        bs.push_back(q);
    if (cm.in(rc.x, rc.y, range))
      for (const Cell& q : relocations(rc, tolRange(), tolAngle(), f))
        as.push_back(q);
    double tl = cfg.goal_tolerance_lin, ta = cfg.goal_tolerance_ang;
    if (g.tol)
    {
      tl = std::max<double>(tl, g.tol->goal->goal_tolerance_lin);
      ta = std::max<double>(ta, g.tol->goal->goal_tolerance_ang);
    }
    const int l = std::lround(static_cast<float>(tl) / base.lr), k = std::lround(static_cast<float>(ta) / base.ar);
    const int e = cfg.antialias_start ? 1 : 0;
    for (const Cell& a : as)
      for (const Cell& b : bs)
      {
        int da = std::abs(a.a - b.a) % base.a;
        da = std::min(da, base.a - da);
        if (da > k)
          continue;
        const int dx = std::max(0, std::abs(a.x - b.x) - e), dy = std::max(0, std::abs(a.y - b.y) - e);
        if (dx * dx + dy * dy <= l * l)
          return true;
      }
    return false;
  }
  // Judges what the node did since the last call; inputs were constant meanwhile.
  void judge(double from, bool lax = false)
  {
    for (; seen < ev.size(); ++seen)
    {
      const Event& e = ev[seen];
      const double at = t(e.t);
      if (lax)
      {
        if (e.kind == Event::PATH)
        {
          latest = e.path;
          moving = !e.path.poses.empty();
        }
        else if (e.kind == Event::STATUS)
        {
          last_error = e.status.error;
          last_status = e.status.status;
        }
        continue;
      }
      if (e.kind == Event::GOAL)
      {
        cur = has_map ? cellOf(base, e.goal.pose) : cur;
        if (!goals.empty())
          goals.back().near = goals.back().near || near(goals.back());
        continue;
      }
      if (e.kind == Event::PATH)
      {
        latest = e.path;
        moving = !e.path.poses.empty();
        if (!moving)
          continue;
        PBT_CHECK(has_map, "path-without-map", "path of " << e.path.poses.size() << " poses");
        PBT_CHECK(have != NONE, "path-without-goal", "path of " << e.path.poses.size() << " poses at " << at - 1000 << " though there is no goal");
        // updates are noticed at the next turn of the node
        PBT_CHECK(!stale(at - 0.15), "path-without-costmap", "path of " << e.path.poses.size() << " poses at " << at - 1000 << ", the last update was at " << updated - 1000);
        PBT_CHECK(!blackout, "path-without-pose", "path of " << e.path.poses.size() << " poses at " << at - 1000 << " without the robot pose");
        if (e.path.poses.size() > 1)
          checkPath(e.path);
        else
          PBT_CHECK(e.path.header.frame_id == "map", "path-frame", "frame '" << e.path.header.frame_id << "'");
        continue;
      }
      last_error = e.status.error;
      last_status = e.status.status;
      if (last_status == Status::DONE && have != NONE)
      {
        PBT_CHECK(!goals.empty() && (have == UNKNOWN || escape || goals.back().near || (cfg.max_retry_num >= 0 && goals.back().stuck)), "done-early",
                  "the goal is given up at " << at - 1000 << " though the robot is in " << robotCell() << " and the goal in " << cur);
        none(at);
      }
      if (have == NONE)
        PBT_CHECK(last_status == Status::DONE, "status-without-goal", "status " << last_status << " at " << at - 1000 << " though there is no goal");
      // the status that a new goal causes has the error of the plan before
      if (!trigger && stale(at - period_max - 0.15) && at > from + period_max + 0.15 && (have == SET || retain))
        PBT_CHECK(last_error == Status::DATA_MISSING, "stale-status", "error " << last_error << " at " << at - 1000 << ", the last update was at " << updated - 1000);
      if (!stale(at) && has_map && have == SET && tf_sent && !blackout && last_status == Status::DOING && !trigger && from + period_max + 0.15 < at)
        PBT_CHECK(last_error != Status::DATA_MISSING, "fresh-status", "data missing at " << at - 1000 << ", the last update was at " << updated - 1000);
    }
  }
  // After a step of constant inputs since `from`.
  void step(double from)
  {
    alive();
    if (!goals.empty())
    {
      Goal& g = goals.back();
      g.near = g.near || near(g);
    }
    judge(from);
    const double n = now();
    const double quiet = period_max + slack;
    if (!trigger)
    {
      if (have == NONE && n > std::max(from, none_since) + quiet)
        PBT_CHECK(!moving, "not-stopped", "still a path of " << latest.poses.size() << " poses " << n - none_since << " s after the goal went");
      if (n - updated > cfg.costmap_watchdog + quiet && stale(n) && n > from + quiet)
        PBT_CHECK(!moving, "not-stopped-stale", "still a path of " << latest.poses.size() << " poses " << n - updated << " s after the last update");
    }
    else if (stale(n) && n - std::max(updated, reconfigured) > 2 * cfg.costmap_watchdog + slack && updated > 0)
      PBT_CHECK(!moving, "not-stopped-stale", "still a path of " << latest.poses.size() << " poses " << n - updated << " s after the last update");
    outcomes();
  }
  double reconfigured = -1e9;
  void outcomes()
  {
    for (size_t i = 0; i < goals.size(); ++i)
    {
      Goal& g = goals[i];
      if (!g.server)
        continue;
      PBT_CHECK(g.misuse().empty(), "outcome-twice", "goal " << i << ": " << g.misuse());
      PBT_CHECK(g.terminals() <= 1, "outcome-twice", "goal " << i << " has " << g.terminals() << " outcomes");
      const bool last = i + 1 == goals.size();
      if (!g.terminals())
      {
        PBT_CHECK(last, "outcome-missing", "goal " << i << " was replaced but has no outcome");
        PBT_CHECK(g.status() == GS::ACTIVE || g.status() == GS::PREEMPTING, "not-accepted", "goal " << i << " has status " << g.status());
        PBT_CHECK(!g.cancelled, "cancel-ignored", "goal " << i << " was cancelled but has no outcome");
        PBT_CHECK(have != NONE, "outcome-missing", "goal " << i << " is not pursued but has no outcome");
        continue;
      }
      if (g.ended)
        continue;
      g.ended = true;
      const int st = g.status();
      log << " goal " << i << " ended with " << st << ": " << g.text() << "\n";
      c.nontrivial();
      c.label(st == GS::SUCCEEDED ? "succeeded" : st == GS::ABORTED ? "aborted" : "preempted");
      PBT_CHECK(st == GS::SUCCEEDED || st == GS::ABORTED || st == GS::PREEMPTED, "outcome-kind", "goal " << i << " ended with status " << st);
      if (st == GS::PREEMPTED)
        PBT_CHECK(g.cancelled || g.replaced, "preempted", "goal " << i << " was preempted without a reason");
      else if (st == GS::ABORTED)
        PBT_CHECK(g.refusable || (cfg.max_retry_num >= 0 && g.stuck), "aborted", "goal " << i << " was aborted without a reason: " << g.text());
      else
      {
        PBT_CHECK(g.near || g.cleared, "succeeded-far", "goal " << i << " succeeded though the robot is in " << robotCell() << " and the goal in " << base.cell(g.pose) << " (" << cur << ")");
        const bool continuous = g.tol && g.tol->goal->continuous_movement_mode;
        if (!continuous && !g.cleared)
        {
          const double tol = std::max<double>(cfg.goal_tolerance_ang_finish, g.tol ? g.tol->goal->goal_tolerance_ang_finish : 0) + 1e-3;
          PBT_CHECK(std::abs(norm(robot.a - g.pose.a)) < tol || std::abs(norm(robot.a - cur.a * base.ar)) < tol, "succeeded-turned", "goal " << i << " succeeded with heading " << robot.a);
          PBT_CHECK(last_status == Status::DONE || !last, "succeeded-status", "goal " << i << " succeeded with status " << last_status);
        }
      }
    }
  }
  void sendTf()
  {
    tf();
    tf_sent = true;
    const Cell p = has_map ? robotCell() : Cell{0, 0, 0};
    off_map = off_map || (has_map && !cm.in(p.x, p.y, range));
  }
  void setGoal(int server, const geometry_msgs::PoseStamped& msg, const Pose& pose, Goal g)
  {
    g.server = server;
    g.pose = pose;
    const bool frame_ok = has_map && msg.header.frame_id == "map";
    const auto& q = msg.pose.orientation;
    const bool clear = q.z * q.z + q.w * q.w < 0.5;
    Have next = have;
    if (!frame_ok)
    {
      if (server)
        next = NONE;
      g.refusable = true;
    }
    else if (clear)
      next = NONE;
    else
    {
      const Cell gc = base.cell(pose), rc = robotCell();
      const bool goal_in = cm.in(gc.x, gc.y, range), robot_in = cm.in(rc.x, rc.y, range);
      const bool sure = !trigger && !blackout && tf_sent;
      if (goal_in && robot_in && !off_map)
        next = SET;
      else if (!sure)
        next = UNKNOWN;
      else if (!robot_in)
        next = NONE;
      else
      {
        bool found = true;
        if (cm.at(rc) >= 100)
          relocations(rc, tolRange(), tolAngle(), found);
        next = !found || goal_in ? SET : NONE;
      }
      g.refusable = next != SET;
    }
    g.cleared = clear && frame_ok;
    if (server || (frame_ok && !clear))
    {
      if (!goals.empty() && server && goals.back().server)
        goals.back().replaced = true;
      cur = has_map ? base.cell(pose) : cur;
      goals.push_back(g);
    }
    have = SET;
    if (next == NONE)
      none(now());
    have = next;
  }
};

void drawLife(Life& r, Map& m)
{
  Src& s = r.s;
  MapGen g;
  g.long_robot = s.chance(3, 10);
  g.costs = s.chance(6, 10);
  g.unknown = s.chance(2, 10);
  m = genMap(s, g, 10, 24, r.log);
  drawConfig(s, r, m);
  r.trigger = r.cfg.trigger_plan_by_costmap_update = s.chance(2, 10);
  r.cfg.costmap_watchdog = s.pick({0.0, 0.5, 1.5});
  r.cfg.max_retry_num = s.pick({-1, -1, 0, 2, 5});
  r.cfg.keep_a_part_of_previous_path = s.chance(2, 10);
  r.cfg.dist_stop_to_previous_path = s.flip() ? 2.0 * m.lr : 0.5;
  r.retain = s.flip();
  r.period_max = r.period();
}

void live(Ctx& c, bool actions)
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  Life r(c, log);
  Map m;
  drawLife(r, m);
  r.begin(log);
  sim::World& w = r.w;
  const auto send = [&](const Map& n)
  {
    r.off_map = r.trigger;  // the pose is looked at on updates only then
    r.sendMap(n);
    r.cur = Cell{-1, -1, -1};
    if (!r.goals.empty())
      r.goals.back().stuck = true;  // the former robot pose may be in rock of the new map
  };
  const auto place = [&](const Map& n)
  {
    const Cell p = drawCell(s, n, s.chance(15, 16) ? r.range + 1 : -1);
    r.robot = inCell(s, n, p, s.flip() ? 0.4 : 0);
  };
  place(m);
  const bool late = s.chance(1, 5);  // inputs are missing at first
  if (!late)
  {
    r.sendTf();
    r.advance(0.05);
    send(m);
    r.sendTf();
    r.advance(0.2);
  }
  r.seen = r.ev.size();
  const int steps = s.irange(4, 24);
  for (int i = 0; i < steps; ++i)
  {
    if (r.ev.size() > 3000)
      return;  // at a turning point the node plans without a pause
    const double from = r.now();
    const int op = s.weighted({actions ? 3 : 5, 2, actions ? 6 : 4, actions ? 1 : 2, actions ? 8 : 4, actions ? 1 : 2, actions ? 1 : 2, actions ? 0 : 2, actions ? 3 : 0, 1, actions ? 0 : 2});
    log << i << " [" << from - 1000 << "] ";
    const bool lost = r.blackout || !r.tf_sent;
    switch (op)
    {
      case 0:
      {
        if (!r.has_map)
          break;
        const Region u = drawUpdate(s, r.base, log);
        r.sendUpdate(u);
        r.updated = r.now();
        break;
      }
      case 1:
        log << "wait\n";
        break;
      case 2:
      {
        if (!r.has_map)
          break;
        const int how = s.weighted({3, 4, 2});
        if (how == 0 && r.latest.poses.size() > 1)
        {
          const auto& q = r.latest.poses[s.irange(0, r.latest.poses.size() - 1)].pose;
          r.robot = Pose{q.position.x, q.position.y, yawOf(q.orientation)};
          // not on the border of two cells
          const auto aside = [&](double& v, double o)
          {
            const double f = (v - o) / r.base.lr;
            if (std::abs(f - std::round(f)) < 0.05)
              v += 0.1 * r.base.lr;
          };
          aside(r.robot.x, r.base.ox);
          aside(r.robot.y, r.base.oy);
        }
        else if (how == 1 && !r.goals.empty())
        {
          r.robot = r.goals.back().pose;
          if (s.chance(1, 4))
            r.robot.a = norm(r.robot.a + s.sym(1.5) * m.ar);
        }
        else
          place(r.base);
        log << "robot to " << r.robotCell() << " " << r.robot.x << " " << r.robot.y << " " << r.robot.a << "\n";
        break;
      }
      case 3:
        r.blackout = w.tf_blackout = !r.blackout;
        log << "pose " << (r.blackout ? "lost" : "back") << "\n";
        break;
      case 4:
      {
        const Cell g = drawCell(s, r.has_map ? r.base : m, s.chance(9, 10) ? r.range : -1);
        const Pose p = inCell(s, r.has_map ? r.base : m, g, s.flip() ? 0.4 : 0);
        geometry_msgs::PoseStamped msg = stamped(p);
        if (s.chance(1, 16))
          msg.header.frame_id = "odom";
        if (actions && s.chance(1, 12))
        {
          // clears the goal: done at once
          log << "without orientation: ";
          msg.pose.orientation.z = msg.pose.orientation.w = 0;
        }
        const int server = actions ? s.weighted({1, 6, 4}) : 0;
        log << (server == 0 ? "goal " : server == 1 ? "move_base goal " : "tolerant_move goal ") << g << " " << msg.header.frame_id << "\n";
        Life::Goal n;
        const bool busy = !r.goals.empty() && r.goals.back().server && !r.goals.back().terminals();
        if (server == 0)
        {
          w.publish("/move_base_simple/goal", msg);
          if (!busy)
            r.setGoal(0, msg, p, n);
        }
        else if (busy && r.goals.back().server != server)
        {
          // refused as long as the other server is working
          if (server == 1 && s.chance(1, 8))
          {
            move_base_msgs::MoveBaseGoal q;
            q.target_pose = msg;
            actionlib::sendGoal<move_base_msgs::MoveBaseAction>("/move_base", q);
          }
        }
        else if (server == 1)
        {
          move_base_msgs::MoveBaseGoal q;
          q.target_pose = msg;
          n.move = actionlib::sendGoal<move_base_msgs::MoveBaseAction>("/move_base", q);
          r.setGoal(1, msg, p, n);
        }
        else
        {
          planner_cspace_msgs::MoveWithToleranceGoal q;
          q.target_pose = msg;
          q.goal_tolerance_lin = s.irange(0, 3) * m.lr;
          q.goal_tolerance_ang = s.irange(0, 2) * m.ar;
          q.goal_tolerance_ang_finish = s.pick({0.05, 0.5});
          q.continuous_movement_mode = s.chance(1, 4);
          log << "  tolerance " << q.goal_tolerance_lin << " " << q.goal_tolerance_ang << " " << q.goal_tolerance_ang_finish << " continuous " << +q.continuous_movement_mode << "\n";
          n.tol = actionlib::sendGoal<planner_cspace_msgs::MoveWithToleranceAction>("/tolerant_move", q);
          r.setGoal(2, msg, p, n);
        }
        break;
      }
      case 5:
      {
        const bool busy = !r.goals.empty() && r.goals.back().server && !r.goals.back().terminals();
        if (busy || !r.has_map)
          break;
        geometry_msgs::PoseStamped msg = stamped(Pose());
        msg.pose.orientation.w = 0;
        w.publish("/move_base_simple/goal", msg);
        log << "clear the goal\n";
        r.setGoal(0, msg, Pose(), Life::Goal());
        break;
      }
      case 6:
      {
        log << "new map ";
        MapGen g;
        Map n = genMap(s, g, 10, 24, log);
        const int keep = s.weighted({3, 2, 2});
        if (keep == 0 && r.has_map)
        {
          // obstacles change only
          Map k = r.base;
          std::fill(k.c.begin(), k.c.end(), 0);
          for (int y = 0; y < std::min(k.h, n.h); ++y)
            for (int x = 0; x < std::min(k.w, n.w); ++x)
              for (int a = 0; a < k.a; ++a)
                k.at(x, y, a) = n.at(x, y, a % n.a);
          n = k;
          log << " same geometry\n";
        }
        else if (keep == 1 && r.has_map && n.a == r.base.a)
        {
          n.lr = r.base.lr;
          log << " same resolution\n";
        }
        const int range = r.cfg.search_range / n.lr;
        if (range < 2 || range > 6)
          n.lr = m.lr;  // of the latest map
        r.range = r.cfg.search_range / n.lr;
        m = n;
        const bool ahead = s.chance(1, 6) && r.has_map && (n.w > r.base.w || n.h > r.base.h);
        Region u;
        if (ahead)
        {
          // an update of the new map comes before that
          u.w = n.w;
          u.h = n.h;
          u.a = n.a;
          u.c.assign(n.w * n.h * n.a, 0);
          Map q = n;
          std::fill(q.c.begin(), q.c.end(), 0);
          blob(q, n.w / 2, n.h / 2, n.w / 2 + 2, n.h / 2 + 2, 100, 0);
          u.c.assign(q.c.begin(), q.c.end());
          w.publish("/costmap_update", u.msg("map", w.time()));
          log << " after an update of it\n";
        }
        w.settle();
        const bool had = r.has_map;
        send(n);
        if (ahead)
        {
          r.cm = n.known(r.unknown_cost);
          for (size_t k = 0; k < u.c.size(); ++k)
            if (r.cfg.overwrite_cost ? u.c[k] >= 0 : u.c[k] > r.cm.c[k])
              r.cm.c[k] = u.c[k];
          r.updated = r.now();
        }
        const size_t before = r.ev.size();
        place(n);
        r.sendTf();
        if (r.have == Life::SET)
        {
          // the goal may be off the new map
          const Cell gc = n.cell(r.goals.back().pose);
          if (!n.in(gc.x, gc.y, r.range))
            r.have = Life::UNKNOWN;
        }
        r.advance(0.15);
        size_t k = before;
        while (k < r.ev.size() && (r.ev[k].kind != Event::PATH || (ahead && !r.ev[k].path.poses.empty())))
          ++k;
        if (ahead)
        {
          r.judge(from, true);  // the update may cause a path on the former map
          if (r.last_status == Status::DONE && r.have == Life::SET)
            r.have = Life::UNKNOWN;
        }
        PBT_CHECK(k < r.ev.size() && r.ev[k].path.poses.empty(), "map-replaced", "the robot is not stopped when the map is replaced");
        if (had)
          c.label("map replaced");
        break;
      }
      case 7:
      {
        const int what = s.irange(0, 4);
        Config& q = r.cfg;
        if (what == 0)
          q.costmap_watchdog = s.pick({0.0, 0.5, 1.5});
        else if (what == 1)
          q.max_vel = s.pick({0.3, 1.0});
        else if (what == 2)
          q.freq = s.pick({4.0, 10.0});
        else if (what == 3)
          q.goal_tolerance_lin = s.pick({0.0, 1.0, 2.0}) * m.lr;
        else if (r.has_map)
        {
          r.range = s.pick({2, 3, 4});
          q.search_range = (r.range + 0.3) * m.lr;
        }
        r.period_max = std::max(r.period_max, r.period());
        r.reconfigured = r.now();
        const Config copy = q;
        dynamic_reconfigure::reconfigure<Config>([copy](Config& x) { x = copy; });
        log << "reconfigure " << what << "\n";
        break;
      }
      case 8:
      {
        if (r.goals.empty() || !r.goals.back().server || r.goals.back().terminals())
          break;
        auto& g = r.goals.back();
        g.cancelled = true;
        log << "cancel\n";
        if (g.move)
          actionlib::cancelGoal<move_base_msgs::MoveBaseAction>("/move_base", g.move);
        else
          actionlib::cancelGoal<planner_cspace_msgs::MoveWithToleranceAction>("/tolerant_move", g.tol);
        r.none(r.now());
        break;
      }
      case 10:
      {
        // updates that fit no map are no costmap
        const double span = s.pick({0.1, 0.7, 2.0});
        const bool angles = s.flip();
        log << "unusable updates for " << span << " s\n";
        for (double done = 0; done < span; done += 0.1)
        {
          Region u;
          u.w = u.h = 1;
          u.x = u.y = angles ? 1 : 70;
          u.a = angles ? 70 : 1;
          u.c.assign(u.a, 0);
          w.publish("/costmap_update", u.msg("map", w.time()));
          r.sendTf();
          r.advance(0.1);
          if (lost)
            r.judge(from, true);
        }
        break;
      }
      default:
        if (!r.has_map)
        {
          log << "first map\n";
          m.lr = m.lr;
          send(m);
        }
        else
        {
          // clean update
          Region u;
          u.w = u.h = 1;
          u.a = r.base.a;
          u.c.assign(u.a, 0);
          r.sendUpdate(u);
          r.updated = r.now();
          log << "clean update\n";
        }
    }
    if (i || !late)
      r.sendTf();
    if (lost || r.blackout || !r.tf_sent)
    {
      // the node may be waiting for the transform and take its inputs only after that
      r.advance(0.13);
      r.judge(from, true);
    }
    else if (r.trigger && (op == 4 || op == 5 || op == 8))
    {
      // a timer may run before the goal is looked at
      r.advance(0.03);
      r.judge(from, true);
    }
    // what must come of it
    bool go = false, arrive = false, stuck = false;
    if (r.has_map && !r.goals.empty() && r.have == Life::SET && !r.trigger && !r.blackout && r.tf_sent)
    {
      const Cell rc = r.robotCell(), gc = r.base.cell(r.goals.back().pose);
      const bool ok = r.cm.in(rc.x, rc.y, r.range) && r.cm.at(rc) < 100 && r.cm.in(gc.x, gc.y, r.range);
      go = ok && r.cm.at(gc) < 100 && r.surelyConnected(rc, gc) && !r.cfg.fast_map_update &&
           r.cfg.local_range >= (r.base.w + r.base.h) * r.base.lr;  // outside of it headings don't change
      arrive = go && rc == gc && std::abs(norm(r.robot.a - r.goals.back().pose.a)) < 0.04 && !r.cfg.keep_a_part_of_previous_path;
      bool found = true;
      if (ok && r.cm.at(gc) >= 100)
        r.relocations(gc, r.tolRange(), r.tolAngle(), found);
      stuck = ok && !found;
    }
    if (!r.goals.empty() && r.has_map)
    {
      const Cell rc = r.robotCell(), gc = r.base.cell(r.goals.back().pose);
      bool f1 = true, f2 = true;
      if (r.cm.in(rc.x, rc.y) && r.cm.at(rc) >= 100)
        r.relocations(rc, r.tolRange(), r.tolAngle(), f1);
      if (r.cm.in(gc.x, gc.y) && r.cm.at(gc) >= 100)
        r.relocations(gc, r.tolRange(), r.tolAngle(), f2);
      r.goals.back().stuck = r.goals.back().stuck || !f1 || !f2 || !r.cm.in(rc.x, rc.y, r.range) || !r.cm.in(gc.x, gc.y, r.range);
    }
    const bool was_stuck_before = !r.goals.empty() && r.goals.back().stuck;
    const double dt = s.pick({0.15, 0.15, 0.6, 1.2, 2.5, 4.0});
    const double begin = r.now();
    r.advance(dt);
    r.step(std::max(from, begin));
    const double need = r.period_max + 1.0 / r.cfg.freq + r.slack;
    const bool fresh = !r.stale(r.now());
    if (go && fresh && dt > need && r.have == Life::SET)
    {
      PBT_CHECK(r.moving && (r.last_error == Status::GOING_WELL || r.last_status == Status::FINISHING), "not-resumed",
                "no path (error " << r.last_error << ") " << dt << " s after all is well; robot " << r.robotCell() << " goal " << r.base.cell(r.goals.back().pose));
      c.label("on the way");
    }
    if (arrive && fresh && dt > need + r.period_max && !was_stuck_before)
    {
      PBT_CHECK(r.have == Life::NONE || (r.goals.back().tol && r.goals.back().tol->goal->continuous_movement_mode), "not-finished", "the robot is at the goal for " << dt << " s");
      c.label("arrived");
    }
    if (stuck && fresh && r.cfg.max_retry_num >= 0 && r.last_status != Status::FINISHING && dt > need + (r.cfg.max_retry_num + 2) / r.cfg.freq)
    {
      PBT_CHECK(r.have == Life::NONE, "not-given-up", "the goal is in rock for " << dt << " s with " << r.cfg.max_retry_num << " retries");
      c.label("given up");
    }
    if (!actions && r.have == Life::NONE && !r.goals.empty())
      c.nontrivial();
  }
}
PBT_FACET(lifecycle, 1, "a goal was set and cleared, refused or reached")
{
  live(c, false);
}
PBT_FACET(actions, 1, "an action goal had an outcome")
{
  live(c, true);
}
}  // namespace
