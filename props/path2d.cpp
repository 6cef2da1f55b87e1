// T02: Path2D geometry queries.
#include <cmath>
#include <limits>

#include <tf2_geometry_msgs/tf2_geometry_msgs.h>

#include <trajectory_tracker/path2d.h>

#include "pbt.h"

namespace tt = trajectory_tracker;
using V2 = Eigen::Vector2d;

namespace
{
struct Gen
{
  tt::Path2D path;
  bool turn = false, switchback = false;
};
double wrap(double a)
{
  return std::remainder(a, 2 * M_PI);
}
// A path as a planner makes it: forward and backward pieces and in-place turns.
Gen genPath(pbt::Src& s, const int max_segments = 14)
{
  Gen g;
  const double step = s.pick({0.1, 0.5, 0.02, 1.0});
  V2 p(s.sym(5, 1000), s.sym(5, 1000));
  double yaw = s.sym(M_PI, 1000);
  int dir = s.chance(1, 4) ? -1 : 1;
  double curv = 0;
  g.path.push_back(tt::Pose2D(p, yaw, s.real(0, 2, 20)));
  const int n = s.irange(0, max_segments);
  for (int i = 0; i < n; ++i)
  {
    const int k = s.weighted({12, 3, 2, 3});
    if (k == 1)
    {
      dir = -dir;
      g.switchback = true;
    }
    if (k == 2)
    {
      yaw = wrap(yaw + s.sym(3, 100));
      g.path.push_back(tt::Pose2D(p, yaw, s.real(0, 2, 20)));
      g.turn = true;
      continue;
    }
    if (k == 3)
      curv = s.sym(0.8 / step, 50);
    const double l = step * s.real(0.5, 2.0, 20);
    const double dyaw = curv * l * 0.5;
    p += dir * l * V2(std::cos(yaw + dyaw / 2), std::sin(yaw + dyaw / 2));
    yaw = wrap(yaw + dyaw);
    g.path.push_back(tt::Pose2D(p, yaw, s.real(0, 2, 20)));
  }
  return g;
}
std::string str(const tt::Path2D& p)
{
  std::ostringstream o;
  for (const auto& q : p)
    o << " (" << q.pos_.x() << "," << q.pos_.y() << "," << q.yaw_ << ")";
  return o.str();
}
double segDist(const V2& a, const V2& b, const V2& q)
{
  const double l2 = (b - a).squaredNorm();
  const double t = l2 > 0 ? std::max(0.0, std::min(1.0, (b - a).dot(q - a) / l2)) : 0;
  return (a + t * (b - a) - q).norm();
}
}  // namespace

PBT_FACET(nearest, 4, "random paths, sub-ranges, query points and search ranges against a scan of all segments; non-trivial: a segment other than the first and last is nearest")
{
  pbt::Src& s = c.src;
  const Gen g = genPath(s);
  const tt::Path2D& p = g.path;
  const size_t n = p.size();
  size_t ib = 0, ie = n;
  if (s.chance(1, 3))
  {
    ib = s.irange(0, n - 1);
    ie = s.irange(ib, n);
  }
  V2 q(s.sym(8, 2000), s.sym(8, 2000));
  const size_t k = s.irange(0, n - 1);
  if (s.chance(2, 3))
    q = p[k].pos_ + V2(s.sym(1, 1000), s.sym(1, 1000));
  if (s.chance(1, 8))
    q = p[k].pos_;
  const double range = s.chance(1, 3) ? s.real(0.01, 6, 500) : 0;
  std::ostringstream in;
  in << " for path" << str(p) << " [" << ib << "," << ie << ") query " << q.transpose() << " range " << range;
  c.describe([&](std::ostream& o) { o << in.str(); });
  const auto r = p.findNearestWithDistance(p.begin() + ib, p.begin() + ie, q, range);
  const auto r1 = p.findNearest(p.begin() + ib, p.begin() + ie, q, range);
  PBT_CHECK(r.first == r1, "two-forms", "findNearest and findNearestWithDistance disagree" << in.str());
  const long at = r.first - p.begin();
  if (ib == ie)
  {
    PBT_CHECK(at == static_cast<long>(ie), "empty-range", "an empty range gives " << at << in.str());
    if (ie == n)
      PBT_CHECK(r.second > 1e30, "empty-range-distance", "an empty range at the end gives distance " << r.second << in.str());
    else
      PBT_CHECK(std::abs(r.second - (p[ie].pos_ - q).norm()) < 1e-4, "empty-range-distance", "distance " << r.second << in.str());
    return;
  }
  // reference
  double best = (p[ib].pos_ - q).norm(), acc = 0;
  size_t searched = ib;  // last searched pose
  bool border = false;
  std::vector<double> dist(n, 1e9);
  dist[ib] = best;
  for (size_t i = ib + 1; i < ie; ++i)
  {
    acc += (p[i].pos_ - p[i - 1].pos_).norm();
    if (range > 0 && std::abs(acc - range) < 1e-4)
      border = true;
    if (range > 0 && acc > range)
      break;
    dist[i] = segDist(p[i - 1].pos_, p[i].pos_, q);
    best = std::min(best, dist[i]);
    searched = i;
  }
  if (border)
    throw pbt::Discard();
  PBT_CHECK(at >= static_cast<long>(ib) && at < static_cast<long>(ie), "nearest-range", "result " << at << in.str());
  PBT_CHECK(at <= static_cast<long>(searched), "nearest-search-range", "result " << at << " is beyond the search range, " << searched << " is the last inside" << in.str());
  const double eps = 1e-5 * (1 + best);
  PBT_CHECK(std::abs(r.second - best) <= eps, "nearest-distance", "distance " << r.second << ", nearest is " << best << in.str());
  PBT_CHECK(dist[at] <= best + eps, "nearest-segment", "segment ending at " << at << " is " << dist[at] << " away, nearest is " << best << in.str());
  if (at == static_cast<long>(ib))
    for (size_t i = ib + 1; i <= searched; ++i)
      PBT_CHECK(dist[i] >= best - eps, "nearest-segment", "the beginning is returned, segment " << i << " is nearer" << in.str());
  // the last point wins when the query is beyond the end of the path
  if (searched == ie - 1 && ie - ib >= 2 && std::abs(dist[ie - 1] - best) == 0 && (p[ie - 1].pos_ - q).norm() < best + 1e-12)
    PBT_CHECK(at == static_cast<long>(ie) - 1, "last-priority", "nearest to the last pose but " << at << " is returned" << in.str());
  c.labelIf(range > 0 && searched + 1 < ie, "search range cut");
  c.nontrivial(at > static_cast<long>(ib) + 1 && at < static_cast<long>(ie) - 1);
}

PBT_FACET(local_goals, 4, "random forward/backward/turning paths against the list of direction changes and in-place turns; non-trivial: at least two local goals")
{
  pbt::Src& s = c.src;
  const Gen g = genPath(s, 20);
  const tt::Path2D& p = g.path;
  const size_t n = p.size();
  const bool sb = s.chance(3, 4), ipt = s.chance(3, 4);
  // sign of each segment: 0 turn in place, +-1 forward or backward
  std::vector<int> sg(n, 0);
  for (size_t i = 1; i < n; ++i)
  {
    const V2 d = p[i].pos_ - p[i - 1].pos_;
    if (d.squaredNorm() < 1e-6)
    {
      if (d.squaredNorm() > 1e-7)
        throw pbt::Discard();
      continue;
    }
    const double dot = d.normalized().dot(V2(std::cos(p[i].yaw_), std::sin(p[i].yaw_)));
    if (std::abs(dot) < 1e-3)
      throw pbt::Discard();
    sg[i] = dot > 0 ? 1 : -1;
  }
  auto ref = [&](size_t b) -> size_t {
    for (size_t i = b + 1; i < n; ++i)
    {
      if (sg[i] == 0 && ipt)
        return i;
      if (sb && i > b + 1 && sg[i] * sg[i - 1] < 0)
        return i;
    }
    return n;
  };
  std::ostringstream in;
  in << " for path" << str(p) << (sb ? " with" : " without") << " switch back," << (ipt ? " with" : " without") << " in-place turn";
  c.describe([&](std::ostream& o) { o << in.str(); });
  const size_t b = s.chance(1, 2) ? 0 : s.irange(0, n - 1);
  const long lg = p.findLocalGoal(p.begin() + b, p.end(), sb, ipt) - p.begin();
  PBT_CHECK(lg == static_cast<long>(ref(b)), "local-goal", "local goal from " << b << " is " << lg << " expected " << ref(b) << in.str());
  if (b < n && ref(b) < n)
  {
    const size_t e = s.irange(b + 1, n);
    const long l2 = p.findLocalGoal(p.begin() + b, p.begin() + e, sb, ipt) - p.begin();
    PBT_CHECK(l2 == static_cast<long>(std::min(e, ref(b))), "local-goal-range", "local goal in [" << b << "," << e << ") is " << l2 << in.str());
  }
  const auto all = p.enumerateLocalGoals(p.begin(), p.end(), sb, ipt);
  std::vector<size_t> want;
  for (size_t i = ref(0); i < n; i = ref(i))
    want.push_back(i);
  PBT_CHECK(all.size() == want.size(), "enumerate", all.size() << " local goals, expected " << want.size() << in.str());
  for (size_t i = 0; i < want.size(); ++i)
    PBT_CHECK(all[i] - p.begin() == static_cast<long>(want[i]), "enumerate", "local goal " << i << " is " << all[i] - p.begin() << " expected " << want[i] << in.str());
  c.labelIf(g.turn, "in-place turn");
  c.labelIf(g.switchback, "switch back");
  c.nontrivial(want.size() >= 2);
}

PBT_FACET(remained, 3, "random paths and points on a chosen segment: remaining distance is the arc length to the end, negative beyond it; length() is the whole; non-trivial: more than two segments remain")
{
  pbt::Src& s = c.src;
  const Gen g = genPath(s);
  const tt::Path2D& p = g.path;
  const size_t n = p.size();
  double len = 0;
  for (size_t i = 1; i < n; ++i)
    len += (p[i].pos_ - p[i - 1].pos_).norm();
  PBT_CHECK(std::abs(p.length() - len) < 1e-4 * (1 + len), "length", "length " << p.length() << " expected " << len << " for path" << str(p));
  const size_t ie = s.chance(1, 3) ? s.irange(1, n) : n;
  if (ie < 2)
  {
    PBT_CHECK(p.remainedDistance(p.begin(), p.begin(), p.begin() + ie, p[0].pos_) == 0, "remained-single", "a path of one pose has remaining distance");
    return;
  }
  const size_t k = s.irange(1, ie - 1);
  const double t = k == ie - 1 ? s.real(0, 1.6, 100) : s.real(0, 1, 100);
  const V2 on = p[k - 1].pos_ + t * (p[k].pos_ - p[k - 1].pos_);
  double want = (p[k].pos_ - on).norm();
  for (size_t i = k + 1; i < ie; ++i)
    want += (p[i].pos_ - p[i - 1].pos_).norm();
  if (t > 1)
    want = -want;
  std::ostringstream in;
  in << " for path" << str(p) << " end " << ie << " segment " << k << " at " << t;
  c.describe([&](std::ostream& o) { o << in.str(); });
  const double r = p.remainedDistance(p.begin(), p.begin() + k, p.begin() + ie, on);
  PBT_CHECK(std::abs(r - want) < 1e-6 * (1 + len), "remained", "remaining distance " << r << " expected " << want << in.str());
  c.labelIf(t > 1, "overshoot");
  c.nontrivial(ie - k > 2);
}

PBT_FACET(curvature, 3, "paths on circles and lines, two-pose paths, and average over the search range; non-trivial: a circle")
{
  pbt::Src& s = c.src;
  const double r = s.real(0.4, 20, 1000), a0 = s.sym(M_PI, 1000);
  const int turn = s.flip() ? 1 : -1, dir = s.flip() ? 1 : -1;
  const double da = s.real(0.02, 0.4, 200);
  const int n = s.irange(2, 10);
  const bool line = s.chance(1, 5);
  const V2 ce(s.sym(5, 100), s.sym(5, 100));
  tt::Path2D p;
  for (int i = 0; i < n; ++i)
  {
    const double a = a0 + turn * da * i;
    if (line)
      p.push_back(tt::Pose2D(ce + V2(std::cos(a0), std::sin(a0)) * (i * da * r), a0 + (dir < 0 ? M_PI : 0), 0));
    else
      p.push_back(tt::Pose2D(ce + r * V2(std::cos(a), std::sin(a)), a + turn * M_PI / 2 + (dir < 0 ? M_PI : 0), 0));
  }
  // curvature of the trajectory in its direction of travel
  const double want = line ? 0 : turn / r;
  const float got = p.getCurvature(p.begin(), p.end(), p[0].pos_, static_cast<float>(s.real(0.1, 30, 100)));
  std::ostringstream in;
  in << " for path" << str(p);
  c.describe([&](std::ostream& o) { o << in.str(); });
  if (n == 2 && std::abs(std::sin(da)) < 0.02)
    throw pbt::Discard();
  PBT_CHECK(std::abs(got - want) < 0.02 * (0.1 + std::abs(want)), "curvature", "curvature " << got << " expected " << want << in.str());
  PBT_CHECK(p.getCurvature(p.begin(), p.begin() + 1, p[0].pos_, 1) == 0, "curvature-single", "a single pose has curvature");
  // mixed curvature: the average over the poses within the range around the given point and one more
  const Gen g = genPath(s);
  tt::Path2D m;
  for (const auto& q : g.path)
    if (m.empty() || (m.back().pos_ - q.pos_).norm() > 1e-3)
      m.push_back(q);
  if (m.size() >= 3)
  {
    const double range = s.real(0.05, 6, 500);
    const V2 t = m[s.irange(0, m.size() - 1)].pos_;
    double sum = 0;
    int cnt = 0;
    bool bad = false;
    for (size_t i = 2; i < m.size(); ++i)
    {
      const double ab = (m[i - 1].pos_ - m[i - 2].pos_).norm(), bc = (m[i].pos_ - m[i - 1].pos_).norm(), ca = (m[i].pos_ - m[i - 2].pos_).norm();
      bad |= ca < 1e-2 * ab;
      const V2 u = m[i - 1].pos_ - m[i - 2].pos_, v = m[i].pos_ - m[i - 1].pos_;
      sum += 2 * (u[0] * v[1] - u[1] * v[0]) / (ab * bc * ca);
      ++cnt;
      const double d = (m[i].pos_ - t).norm();
      bad |= std::abs(d - range) < 1e-4;
      if (d > range)
        break;
    }
    if (!bad)
    {
      const float k = m.getCurvature(m.begin(), m.end(), t, range);
      PBT_CHECK(std::abs(k - sum / cnt) < 1e-3 * (1 + std::abs(sum / cnt)), "curvature-average", "curvature " << k << " expected " << sum / cnt << " for path" << str(m) << " range " << range << " around " << t.transpose());
    }
  }
  c.nontrivial(!line);
}

template <class MSG>
static void convert(pbt::Ctx& c, const bool with_vel)
{
  pbt::Src& s = c.src;
  MSG msg;
  struct In
  {
    V2 p;
    double yaw, v;
  };
  std::vector<In> in;
  const double eps = s.pick({1e-6, 0.01, 0.1});
  const int n = s.irange(0, 12);
  V2 p(s.sym(10, 1000), s.sym(10, 1000));
  for (int i = 0; i < n; ++i)
  {
    if (i > 0 && !s.chance(2, 5))
      p += V2(s.sym(1, 1000), s.sym(1, 1000));
    else if (i > 0 && s.chance(1, 3))
      p += V2(s.sym(eps, 1000), s.sym(eps, 1000));
    in.push_back(In{p, s.sym(M_PI, 1000), s.real(-2, 2, 100)});
  }
  msg.poses.resize(n);
  std::ostringstream log;
  log << " for poses";
  for (int i = 0; i < n; ++i)
  {
    msg.poses[i].pose.position.x = in[i].p.x();
    msg.poses[i].pose.position.y = in[i].p.y();
    msg.poses[i].pose.position.z = s.chance(1, 4) ? s.sym(3, 10) : 0;
    msg.poses[i].pose.orientation.z = std::sin(in[i].yaw / 2);
    msg.poses[i].pose.orientation.w = std::cos(in[i].yaw / 2);
    if constexpr (std::is_same<MSG, trajectory_tracker_msgs::PathWithVelocity>::value)
      msg.poses[i].linear_velocity.x = in[i].v;
    log << " (" << in[i].p.transpose() << "," << in[i].yaw << "," << in[i].v << ")";
  }
  log << " eps " << eps;
  // reference: of each run of poses at one position the first and, if there are more, the last stay
  std::vector<In> want;
  int runs = 0;
  for (int i = 0; i < n;)
  {
    int j = i + 1;
    while (j < n)
    {
      const double d = (in[j].p - in[i].p).norm();
      if (std::abs(d - eps) < 1e-3 * eps)
        throw pbt::Discard();
      if (d >= eps)
        break;
      ++j;
    }
    want.push_back(in[i]);
    if (j - i > 1)
    {
      want.push_back(In{in[i].p, in[j - 1].yaw, in[j - 1].v});
      ++runs;
    }
    i = j;
  }
  c.describe([&](std::ostream& o) { o << log.str(); });
  tt::Path2D path;
  if (s.flip())
    path.push_back(tt::Pose2D(V2(1, 1), 1, 1));
  path.fromMsg(msg, eps);
  PBT_CHECK(path.size() == want.size(), "from-size", path.size() << " poses, expected " << want.size() << log.str());
  for (size_t i = 0; i < want.size(); ++i)
  {
    PBT_CHECK((path[i].pos_ - want[i].p).norm() < 1e-9, "from-position", "pose " << i << " at " << path[i].pos_.transpose() << log.str());
    PBT_CHECK(std::abs(wrap(path[i].yaw_ - want[i].yaw)) < 1e-5, "from-yaw", "pose " << i << " heading " << path[i].yaw_ << log.str());
    if (with_vel)
      PBT_CHECK(std::abs(path[i].velocity_ - want[i].v) < 1e-5, "from-velocity", "pose " << i << " velocity " << path[i].velocity_ << log.str());
    else
      PBT_CHECK(std::isnan(path[i].velocity_), "from-no-velocity", "pose " << i << " has velocity " << path[i].velocity_ << " without being given one" << log.str());
  }
  // and back
  MSG out;
  out.header.frame_id = "odom";
  out.header.stamp = ros::Time(12.5);
  out.poses.resize(s.irange(0, 3));
  path.toMsg(out);
  PBT_CHECK(out.poses.size() == want.size(), "to-size", out.poses.size() << " poses, expected " << want.size() << log.str());
  for (size_t i = 0; i < want.size(); ++i)
  {
    const auto& q = out.poses[i];
    PBT_CHECK(q.header.frame_id == "odom" && q.header.stamp == out.header.stamp, "to-header", "pose " << i << " lost the header" << log.str());
    PBT_CHECK(std::hypot(q.pose.position.x - want[i].p.x(), q.pose.position.y - want[i].p.y()) < 1e-9, "to-position", "pose " << i << log.str());
    const double yaw = 2 * std::atan2(q.pose.orientation.z, q.pose.orientation.w);
    PBT_CHECK(std::abs(wrap(yaw - want[i].yaw)) < 1e-5 && q.pose.orientation.x == 0 && q.pose.orientation.y == 0, "to-yaw", "pose " << i << " heading " << yaw << log.str());
    if constexpr (std::is_same<MSG, trajectory_tracker_msgs::PathWithVelocity>::value)
      PBT_CHECK(std::abs(q.linear_velocity.x - want[i].v) < 1e-5, "to-velocity", "pose " << i << log.str());
  }
  tt::Path2D again;
  again.fromMsg(out, eps);
  PBT_CHECK(again.size() == path.size(), "round-trip", again.size() << " poses after a round trip of " << path.size() << log.str());
  c.labelIf(runs > 0, "in-place turn");
  c.nontrivial(runs > 0 && want.size() > 2);
}
PBT_FACET(messages, 3, "random pose lists (plain and with velocity) to Path2D and back; non-trivial: a run of poses at one position inside a longer path")
{
  if (c.src.flip())
    convert<trajectory_tracker_msgs::PathWithVelocity>(c, true);
  else
    convert<nav_msgs::Path>(c, false);
}

PBT_FACET(arrival_times, 2, "random paths and speeds against summed travel and turn times; rotation of a pose about the origin; non-trivial: the path turns in place")
{
  pbt::Src& s = c.src;
  const Gen g = genPath(s);
  const tt::Path2D& p = g.path;
  const double lin = s.real(0.1, 3, 100), ang = s.real(0.1, 3, 100), t0 = s.pick({0.0, 5.0, -1.0});
  const size_t ib = s.chance(1, 3) ? s.irange(0, p.size()) : 0;
  std::ostringstream in;
  in << " for path" << str(p) << " from " << ib << " speeds " << lin << " " << ang << " t0 " << t0;
  c.describe([&](std::ostream& o) { o << in.str(); });
  const auto eta = p.getEstimatedTimeOfArrivals(p.begin() + ib, p.end(), lin, ang, t0);
  PBT_CHECK(eta.size() == p.size() - ib, "eta-size", eta.size() << " times" << in.str());
  double t = t0;
  for (size_t i = 0; i < eta.size(); ++i)
  {
    if (i > 0)
    {
      const auto &a = p[ib + i - 1], &b = p[ib + i];
      const double d = (a.pos_ - b.pos_).norm();
      t += d > 1e-6 ? d / lin : std::abs(wrap(a.yaw_ - b.yaw_)) / ang;
    }
    PBT_CHECK(std::abs(eta[i] - t) < 1e-4 * (1 + std::abs(t)), "eta", "time " << i << " is " << eta[i] << " expected " << t << in.str());
  }
  tt::Pose2D q(V2(s.sym(5, 1000), s.sym(5, 1000)), s.sym(7, 1000), 1.5);
  const tt::Pose2D q0 = q;
  const float a = s.sym(7, 1000);
  q.rotate(a);
  const V2 w(std::cos(a) * q0.pos_.x() - std::sin(a) * q0.pos_.y(), std::sin(a) * q0.pos_.x() + std::cos(a) * q0.pos_.y());
  PBT_CHECK((q.pos_ - w).norm() < 1e-5, "rotate", q0.pos_.transpose() << " rotated by " << a << " is " << q.pos_.transpose());
  PBT_CHECK(std::abs(wrap(q.yaw_ - q0.yaw_ - a)) < 1e-5 && q.yaw_ >= -1e-6 && q.yaw_ <= 2 * M_PI + 1e-5, "rotate-yaw", q0.yaw_ << " rotated by " << a << " is " << q.yaw_);
  PBT_CHECK(q.velocity_ == q0.velocity_, "rotate-velocity", "rotation changes the velocity");
  c.nontrivial(g.turn);
}
