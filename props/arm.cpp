// P15: the two-joint planner node.
#include <cmath>
#include <deque>
#include <limits>
#include <memory>
#include <sim/world.h>
#include <planner_cspace_msgs/PlannerStatus.h>
#include <sensor_msgs/JointState.h>
#include <trajectory_msgs/JointTrajectory.h>

#include "pbt.h"

int planner_2dof_serial_joints_main(int, char**);

namespace
{
using pbt::Src;
struct Link
{
  double r0, r1, len, x, y, th, gain, vmax;
  std::string name;
};
struct Arm
{
  Link l[2];
  int res, range;
  std::string group;
  double prec() const { return 2 * M_PI / res; }
  // Gap between the two links, negative in collision.
  double clearance(const double a, const double b) const
  {
    double e[2][2];
    for (int i = 0; i < 2; ++i)
    {
      const double t = l[i].th + (i ? b : a) * l[i].gain;
      e[i][0] = l[i].x + std::cos(t) * l[i].len;
      e[i][1] = l[i].y + std::sin(t) * l[i].len;
    }
    return std::min({std::hypot(e[0][0] - e[1][0], e[0][1] - e[1][1]) - l[0].r1 - l[1].r1,
                     std::hypot(e[0][0] - l[1].x, e[0][1] - l[1].y) - l[0].r1 - l[1].r0,
                     std::hypot(e[1][0] - l[0].x, e[1][1] - l[0].y) - l[1].r1 - l[0].r0});
  }
  std::vector<int8_t> map;  // 0 free, 1 colliding, 2 too close to tell
  int at(int a, int b) const
  {
    a = ((a % res) + res) % res;
    b = ((b % res) + res) % res;
    return map[a * res + b];
  }
  void fill()
  {
    for (int a = 0; a < res; ++a)
      for (int b = 0; b < res; ++b)
      {
        const double d = clearance((a - res) * prec(), (b - res) * prec());
        map.push_back(std::abs(d) < 1e-4 ? 2 : d < 0);
      }
  }
  // Whether the cells passed from one cell up to the other one are free: 0 yes, 1 no, 2 unclear
  int passes(const int a, const int b, const int da, const int db) const
  {
    const int n = static_cast<int>(std::hypot(da, db));
    int r = 0;
    for (int i = 0; i < n; ++i)
    {
      const double u = a + double(da) * i / n, v = b + double(db) * i / n;
      int lo = 2, hi = 0, unclear = 0;
      for (double e1 : {-1e-3, 1e-3})
        for (double e2 : {-1e-3, 1e-3})
        {
          const int m = at(std::lround(u + e1), std::lround(v + e2));
          unclear |= m == 2;
          lo = std::min(lo, static_cast<int>(m == 1));
          hi = std::max(hi, static_cast<int>(m == 1));
        }
      if (lo && !unclear)
        return 1;
      if (hi || unclear)
        r = 2;
    }
    return r;
  }
  // 0 reachable, 1 not, 2 unclear
  int reachable(const int s[2], const int e[2]) const
  {
    const int n = 2 * res;
    for (int opt = 0; opt < 2; ++opt)
    {
      std::vector<char> seen(n * n, 0);
      std::deque<std::pair<int, int>> q{{s[0], s[1]}};
      seen[s[0] * n + s[1]] = 1;
      while (!q.empty() && !seen[e[0] * n + e[1]])
      {
        const auto p = q.front();
        q.pop_front();
        for (int da = -range; da <= range; ++da)
          for (int db = -range; db <= range; ++db)
          {
            const int a = (p.first + da + n) % n, b = (p.second + db + n) % n;
            if (seen[a * n + b])
              continue;
            const int ok = passes(p.first, p.second, da, db);
            if (ok == 1 || (ok == 2 && !opt))
              continue;
            // the last cell is looked at when moving on, or as the goal
            seen[a * n + b] = 1;
            if (at(a, b) == 0 || (at(a, b) == 2 && opt))
              q.push_back({a, b});
          }
      }
      const bool got = seen[e[0] * n + e[1]];
      if (!opt && got)
        return 0;
      if (opt && !got)
        return 1;
    }
    return 2;
  }
};
}  // namespace

PBT_FACET(joints, 1, "pairs of links of any geometry, joint states and requests in any order, also incomplete, malformed and out of range ones, repeated requests, several link groups; non-trivial: a trajectory around a collision was published")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  sim::World& w = sim::world();
  w.setParam("/neonavigation_compatible", 1);
  w.node = "planner_2dof_serial_joints";
  const int groups = s.chance(1, 4) ? 2 : 1;
  w.setParam("/planner_2dof_serial_joints/num_groups", groups);
  double interval = 0.2;
  if (s.chance(1, 2))
  {
    interval = s.pick({5.0, 0.0, -1.0, 0.1});
    w.setParam("/planner_2dof_serial_joints/replan_interval", interval);
    log << "replan interval " << interval << "\n";
  }
  std::vector<Arm> arms(groups);
  int mode = 0;
  for (int g = 0; g < groups; ++g)
  {
    Arm& a = arms[g];
    a.group = "group" + std::to_string(g);
    if (s.chance(1, 3))
    {
      a.group = "legs" + std::to_string(g);
      w.setParam("/planner_2dof_serial_joints/group" + std::to_string(g) + "_name", a.group);
    }
    const std::string p = "/planner_2dof_serial_joints/" + a.group + "/";
    a.res = s.pick({16, 12, 24, 15});
    a.range = s.pick({2, 1, 4, 5});
    w.setParam(p + "resolution", a.res);
    w.setParam(p + "range", a.range);
    const double gap = s.real(0.2, 0.5, 30);
    for (int i = 0; i < 2; ++i)
    {
      Link& l = a.l[i];
      l.len = static_cast<float>(s.real(0.05, 0.4, 35));
      l.r0 = static_cast<float>(s.real(0.01, 0.09, 8));
      l.r1 = static_cast<float>(s.real(0.01, 0.12, 11));
      l.x = static_cast<float>(i ? -gap / 2 : gap / 2);
      l.y = static_cast<float>(s.chance(1, 3) ? s.sym(0.1, 10) : 0);
      l.th = static_cast<float>(s.chance(1, 3) ? s.sym(3, 6) : 0);
      l.gain = s.pick({1.0, -1.0});
      l.vmax = s.pick({0.5, 1.5, 0.2});
      l.name = "j" + std::to_string(g) + std::to_string(i);
      const std::string q = p + "link" + std::to_string(i) + "_";
      w.setParam(q + "name", l.name);
      w.setParam(q + "joint_radius", l.r0);
      w.setParam(q + "end_radius", l.r1);
      w.setParam(q + "length", l.len);
      w.setParam(q + "x", l.x);
      w.setParam(q + "y", l.y);
      w.setParam(q + "th", l.th);
      w.setParam(q + "gain_th", l.gain);
      w.setParam(q + "vmax", l.vmax);
    }
    if (s.chance(1, 2))
    {
      mode = s.irange(0, 2);
      w.setParam(p + "point_vel_mode", std::string(mode == 0 ? "prev" : mode == 1 ? "Next" : "AVG"));
    }
    if (s.chance(1, 3))
      w.setParam(p + "expand", s.pick({0.5, 1.0}));
    if (s.chance(1, 3))
      w.setParam(p + "weight_cost", s.pick({0.0, 20.0}));
    a.fill();
    log << a.group << " resolution " << a.res << " range " << a.range << " links";
    for (auto& l : a.l)
      log << " " << l.name << " (" << l.x << "," << l.y << "," << l.th << ") length " << l.len << " radii " << l.r0 << "," << l.r1 << " gain " << l.gain << " vmax " << l.vmax;
    log << "\n";
  }
  auto out = w.listen<trajectory_msgs::JointTrajectory>("/joint_trajectory");
  std::vector<std::shared_ptr<std::vector<std::pair<ros::Time, planner_cspace_msgs::PlannerStatus>>>> status;
  for (auto& a : arms)
    status.push_back(w.listen<planner_cspace_msgs::PlannerStatus>("/planner_2dof_serial_joints/" + a.group + "/status"));
  w.start([] { char n[] = "n"; char* a[] = {n, nullptr}; return planner_2dof_serial_joints_main(1, a); });
  w.settle();
  PBT_CHECK(w.alive() && !w.crashed, "crash", "the node ended: " << w.crash_what);

  struct State
  {
    bool known = false, target = false;
    double now[2] = {0, 0}, goal[2] = {0, 0}, asked = 0;
    int64_t planned = 0;
    bool fresh = true;
    double vel = -1;  // agreed at the first plan of a request
  };
  std::vector<State> st(groups);
  bool around = false;
  const auto cell = [](const Arm& a, double v)
  { return std::lround(static_cast<float>(static_cast<float>(v) * a.res / (2.0 * M_PI))) + a.res; };
  const auto tie = [](const Arm& a, double v)
  { const double t = v / a.prec(); return std::abs(std::abs(t - std::round(t)) - 0.5) < 1e-4; };
  const auto angle = [&](const Arm& a) -> double
  {
    switch (s.weighted({4, 3, 3, 1}))
    {
      case 0:
        return s.irange(-a.res / 2, a.res / 2) * a.prec();
      case 1:
        return s.sym(M_PI);
      case 2:
        return s.sym(2 * M_PI);
      default:
        return s.pick({0.0, 2 * M_PI, -2 * M_PI, 7.0, -13.0, 1000.0});
    }
  };
  const auto judge = [&](const int g, const trajectory_msgs::JointTrajectory& t, const planner_cspace_msgs::PlannerStatus& r, const bool first)
  {
    const Arm& a = arms[g];
    State& q = st[g];
    PBT_CHECK(t.joint_names.size() == 2 && t.joint_names[0] == a.l[0].name && t.joint_names[1] == a.l[1].name, "names", "");
    PBT_CHECK(r.status == planner_cspace_msgs::PlannerStatus::DOING, "status", "status " << static_cast<int>(r.status));
    int cs[2], ce[2];
    bool unclear = false;
    for (int i = 0; i < 2; ++i)
    {
      cs[i] = cell(a, q.now[i]);
      ce[i] = cell(a, q.goal[i]);
      unclear = unclear || tie(a, q.now[i]) || tie(a, q.goal[i]);
    }
    const bool failed = r.error == planner_cspace_msgs::PlannerStatus::PATH_NOT_FOUND;
    PBT_CHECK(failed || r.error == planner_cspace_msgs::PlannerStatus::GOING_WELL, "error", "error " << static_cast<int>(r.error));
    PBT_CHECK(!t.points.empty(), "empty", "a trajectory without points");
    for (auto& p : t.points)
    {
      PBT_CHECK(p.positions.size() == 2 && p.velocities.size() == 2, "point", "");
      for (int i = 0; i < 2; ++i)
        PBT_CHECK(std::isfinite(p.positions[i]) && std::isfinite(p.velocities[i]), "finite", "position " << p.positions[i] << " velocity " << p.velocities[i]);
    }
    if (failed)
    {
      PBT_CHECK(t.points.size() == 1 && std::abs(t.points[0].positions[0] - q.now[0]) < 1e-5 && std::abs(t.points[0].positions[1] - q.now[1]) < 1e-5 && t.points[0].velocities[0] == 0 && t.points[0].velocities[1] == 0, "hold", "moves though there is no path");
      for (int i = 0; i < 2; ++i)
      {
        cs[i] = (cs[i] % (2 * a.res) + 2 * a.res) % (2 * a.res);
        ce[i] = (ce[i] % (2 * a.res) + 2 * a.res) % (2 * a.res);
      }
      // Short intervals end a search by the real time
      if ((interval <= 0 || interval >= 5) && !unclear && a.at(cs[0], cs[1]) == 0 && a.at(ce[0], ce[1]) == 0)
        PBT_CHECK(a.reachable(cs, ce) != 0, "missed", "no path from cell " << cs[0] << "," << cs[1] << " to " << ce[0] << "," << ce[1]);
      return;
    }
    if (!unclear)
    {
      PBT_CHECK(a.at(cs[0], cs[1]) != 1, "start", "a path from a colliding state");
      PBT_CHECK(a.at(ce[0], ce[1]) != 1, "goal", "a path to a colliding state");
    }
    const auto& end = t.points.back();
    for (int i = 0; i < 2; ++i)
    {
      if (!unclear)
        PBT_CHECK(std::abs(std::remainder(end.positions[i] - q.goal[i], 2 * M_PI)) < 1e-4 + std::abs(q.goal[i]) * 1e-6 + std::abs(q.now[i]) * 1e-6, "end", "ends at " << end.positions[0] << "," << end.positions[1] << " instead of " << q.goal[0] << "," << q.goal[1]);
      PBT_CHECK(end.velocities[i] == 0, "end", "moving at the end");
    }
    // No collision on the way.
    double from[2] = {q.now[0], q.now[1]}, tm = 0, length = 0;
    const double slack = (a.l[0].len + a.l[1].len) * a.prec() * 1.2 + 1e-3;
    const double vmax = std::min(a.l[0].vmax, a.l[1].vmax);
    for (size_t k = 0; k < t.points.size(); ++k)
    {
      const auto& p = t.points[k];
      int c0[2], c1[2];
      double big = 0;
      for (int i = 0; i < 2; ++i)
      {
        c0[i] = cell(a, from[i]);
        c1[i] = cell(a, p.positions[i]);
        big = std::max(big, std::abs(p.positions[i] - from[i]));
        unclear = unclear || tie(a, p.positions[i]);
      }
      if (!unclear)
        PBT_CHECK(a.passes(c0[0], c0[1], c1[0] - c0[0], c1[1] - c0[1]) != 1, "collision", "passes through colliding cells from " << c0[0] << "," << c0[1] << " to " << c1[0] << "," << c1[1]);
      const int n = 1 + static_cast<int>(big / a.prec() * 4);
      for (int j = 0; j <= n; ++j)
      {
        const double d = a.clearance(from[0] + (p.positions[0] - from[0]) * j / n, from[1] + (p.positions[1] - from[1]) * j / n);
        PBT_CHECK(d > -slack, "collision", "links overlap by " << -d << " m between points " << k << " and " << k + 1);
      }
      const double dt = p.time_from_start.toSec() - tm;
      PBT_CHECK(dt >= 0, "time", "point " << k << " is earlier than the one before");
      PBT_CHECK(big <= vmax * dt * (1 + 1e-3) + 1e-5, "speed", "moves " << big << " rad in " << dt << " s, the limit is " << vmax);
      PBT_CHECK(std::abs(p.velocities[0]) <= vmax * (1 + 1e-3) && std::abs(p.velocities[1]) <= vmax * (1 + 1e-3), "speed", "velocity " << p.velocities[0] << "," << p.velocities[1]);
      tm = p.time_from_start.toSec();
      length += big;
      for (int i = 0; i < 2; ++i)
        from[i] = p.positions[i];
    }
    (void)first;
    if (q.vel < 0)  // the speed is decided at the first path of the request
      q.vel = q.asked > 0 && length > 1e-9 ? std::min(vmax, length / q.asked) : vmax;
    PBT_CHECK(std::abs(tm - length / q.vel) < 1e-3 * (1 + tm), "duration", "takes " << tm << " s for " << length << " rad at " << q.vel << " rad/s");
    if (t.points.size() > 1)
      around = true;
    if ((cs[0] - ce[0]) % (2 * a.res) == 0 && (cs[1] - ce[1]) % (2 * a.res) == 0)
      q.planned = 0;
  };
  const int n = s.irange(2, 9);
  for (int k = 0; k < n; ++k)
  {
    const int what = k < 2 ? s.pick({k, 1 - k}) : s.weighted({3, 3});
    const int g = s.irange(0, groups - 1);
    const double wait = s.pick({0.05, 0.3, 0.0, 1.0});
    out->clear();
    for (auto& x : status)
      x->clear();
    w.advance(wait);
    PBT_CHECK(out->empty(), "unasked", "published without an input");
    std::vector<int> due(groups, 0);  // 0 none, 1 one
    if (what == 0)
    {
      // joint states: all joints, or some
      sensor_msgs::JointState m;
      m.header.stamp = w.time();
      const bool both = s.flip(), part = s.chance(1, 6), swap = s.flip();
      for (int i = 0; i < groups; ++i)
        if (both || i == g)
        {
          const bool miss = part && i == g;
          double v[2];
          for (int j = 0; j < 2; ++j)
            v[j] = st[i].target && s.chance(1, 4) ? st[i].goal[j] : angle(arms[i]);
          if (s.flip())
          {
            m.name.push_back("other" + std::to_string(i));
            m.position.push_back(9);
          }
          for (int j = 0; j < 2; ++j)
          {
            const int jj = swap ? 1 - j : j;
            if (miss && jj == 0)
              continue;
            m.name.push_back(arms[i].l[jj].name);
            m.position.push_back(v[jj]);
          }
          if (!miss)
          {
            st[i].known = true;
            for (int j = 0; j < 2; ++j)
              st[i].now[j] = static_cast<float>(v[j]);
            if (st[i].target && interval > 0 && (st[i].planned == 0 || st[i].planned + static_cast<int64_t>(interval * 1e9) < w.now))
              due[i] = 1;
          }
        }
      log << w.now / 1000000 << " joints";
      for (size_t i = 0; i < m.name.size(); ++i)
        log << " " << m.name[i] << "=" << m.position[i];
      w.publish("/joint_states", m);
    }
    else
    {
      trajectory_msgs::JointTrajectory m;
      m.header.frame_id = "base";
      const int odd = s.weighted({8, 1, 1, 1});  // 1: a joint is missing 2: no point 3: two points
      const bool swap = s.flip(), extra = s.flip(), again = st[g].target && s.chance(1, 4);
      double v[2];
      double t = again ? st[g].asked : s.pick({0.0, 2.0, 0.01, 20.0});
      for (int j = 0; j < 2; ++j)
        v[j] = again ? st[g].goal[j] : st[g].known && s.chance(1, 6) ? st[g].now[j] : angle(arms[g]);
      trajectory_msgs::JointTrajectoryPoint p;
      if (extra)
      {
        m.joint_names.push_back("other");
        p.positions.push_back(5);
      }
      for (int j = 0; j < 2; ++j)
      {
        const int jj = swap ? 1 - j : j;
        if (odd == 1 && jj == 0)
          continue;
        m.joint_names.push_back(arms[g].l[jj].name);
        p.positions.push_back(v[jj]);
      }
      p.time_from_start = ros::Duration(t);
      if (odd != 2)
        m.points.push_back(p);
      if (odd == 3)
        m.points.push_back(p);
      log << w.now / 1000000 << " request of " << m.points.size() << " points";
      for (size_t i = 0; i < m.joint_names.size(); ++i)
        log << " " << m.joint_names[i] << "=" << p.positions[i];
      log << " in " << t << " s";
      if (odd == 0 && !(st[g].target && static_cast<float>(v[0]) == static_cast<float>(st[g].goal[0]) && static_cast<float>(v[1]) == static_cast<float>(st[g].goal[1]) && t == st[g].asked))
      {
        st[g].target = true;
        st[g].goal[0] = v[0];
        st[g].goal[1] = v[1];
        st[g].asked = t;
        st[g].vel = -1;
        due[g] = st[g].known;
      }
      w.publish("/trajectory_in", m);
    }
    w.settle();
    log << " -> " << out->size() << "\n";
    PBT_CHECK(w.alive() && !w.crashed, "crash", "the node ended: " << w.crash_what);
    size_t total = 0;
    for (int i = 0; i < groups; ++i)
    {
      std::vector<const trajectory_msgs::JointTrajectory*> mine;
      for (auto& o : *out)
        if (!o.second.joint_names.empty() && o.second.joint_names[0] == arms[i].l[0].name)
          mine.push_back(&o.second);
      total += mine.size();
      PBT_CHECK(static_cast<int>(mine.size()) == due[i] && static_cast<int>(status[i]->size()) == due[i], "answer", mine.size() << " trajectories and " << status[i]->size() << " status messages of " << arms[i].group << ", " << due[i] << " expected");
      if (!mine.empty())
      {
        st[i].planned = w.now;
        judge(i, *mine[0], status[i]->back().second, what == 1);
      }
    }
    PBT_CHECK(total == out->size(), "names", "a trajectory of unknown joints");
  }
  c.nontrivial(around);
}
