// P07, P08, P09 (swept motion part), P13: motion primitives, swept cells, move costs and
// grid/metric conversion of the 3-DOF planner, against double-precision geometry.
#include <cmath>
#include <limits>
#include <list>
#include <map>
#include <set>
#include <vector>

#include <costmap_cspace_msgs/MapMetaData3D.h>
#include <planner_cspace/planner_3d/grid_astar_model.h>
#include <planner_cspace/planner_3d/grid_metric_converter.h>
#include <planner_cspace/planner_3d/motion_cache.h>
#include <planner_cspace/planner_3d/motion_primitive_builder.h>

#include "pbt.h"

namespace pc = planner_cspace;
namespace p3 = planner_cspace::planner_3d;
using Vec = pc::CyclicVecInt<3, 2>;
using Vecf = pc::CyclicVecFloat<3, 2>;
using Model = p3::GridAstarModel3D;
using VWC = p3::GridAstarModel3D::VecWithCost;
static constexpr float FMAX = std::numeric_limits<float>::max();

static int mod(int a, int n) { return ((a % n) + n) % n; }
static std::string str(const Vec& v)
{
  std::ostringstream o;
  o << "(" << v[0] << "," << v[1] << "," << v[2] << ")";
  return o.str();
}

// The move from the origin with heading index syaw by d (d[2]: end heading index), in cells.
struct Geometry
{
  int angles;
  double ares;
  int syaw;
  Vec d;
  double mx, my, dyaw;  // displacement and turn in the frame of the start pose
  bool straight;
  double r1, r2;  // start and end radius of the interpolated arc [cell]
  bool straight_unclear;

  Geometry(int a, int s, const Vec& dd) : angles(a), ares(2 * M_PI / a), syaw(s), d(dd)
  {
    const double t = syaw * ares;
    mx = std::cos(t) * d[0] + std::sin(t) * d[1];
    my = -std::sin(t) * d[0] + std::cos(t) * d[1];
    dyaw = std::remainder((d[2] - syaw) * ares, 2 * M_PI);
    const double sn = std::sin(dyaw), cs = std::cos(dyaw);
    straight = std::abs(sn) < 0.1;
    straight_unclear = std::abs(std::abs(sn) - 0.1) < 1e-4;
    if (!straight)
    {
      r1 = my + mx * cs / sn;
      r2 = std::copysign(std::hypot(mx, mx * cs / sn), mx * sn);
    }
  }
  // Pose at t in [0, 1]: x, y in cells, yaw in heading indexes (not wrapped).
  void at(double t, double p[3]) const
  {
    const double yaw = syaw * ares;
    if (straight)
    {
      p[0] = d[0] * t;
      p[1] = d[1] * t;
      p[2] = syaw;
      return;
    }
    const double yaw_e = d[2] * ares;
    const double r = r1 * (1 - t) + r2 * t;
    const double cx = d[0] - r2 * std::sin(yaw_e), cy = d[1] + r2 * std::cos(yaw_e);
    const double cxs = -r1 * std::sin(yaw), cys = r1 * std::cos(yaw);
    const double y = yaw + t * dyaw;
    p[0] = cxs * (1 - t) + cx * t + r * std::sin(y);
    p[1] = cys * (1 - t) + cy * t - r * std::cos(y);
    p[2] = y / ares;
  }
  double arcLength(int n = 400) const
  {
    double l = 0, a[3], b[3];
    at(0, a);
    for (int i = 1; i <= n; ++i)
    {
      at(i / static_cast<double>(n), b);
      l += std::hypot(b[0] - a[0], b[1] - a[1]);
      std::copy(b, b + 3, a);
    }
    return l;
  }
};

struct VecLess
{
  bool operator()(const Vec& a, const Vec& b) const { return std::make_tuple(a[0], a[1], a[2]) < std::make_tuple(b[0], b[1], b[2]); }
};
using Cells = std::set<Vec, VecLess>;

// must: cells the motion stays in for longer than one enumeration step (a sample falls into each).
// may: every cell it touches.
static void swept(const Geometry& g, double enum_res, Cells& must, Cells& may)
{
  const double len = std::hypot(g.d[0], g.d[1]);
  const int steps = static_cast<int>(std::lround(len / enum_res));
  const double step = 1.0 / steps;
  const int fine = 24;
  const double tol = 2e-3;
  Vec run(0, 0, 0);
  bool in_run = false;
  double run_start = 0;
  const int n = steps * fine;
  for (int i = 0; i <= n; ++i)
  {
    const double t = static_cast<double>(i) / n;
    double p[3];
    g.at(t, p);
    int lo[3], hi[3];
    for (int k = 0; k < 3; ++k)
    {
      lo[k] = static_cast<int>(std::floor(p[k] + 0.5 - tol));
      hi[k] = static_cast<int>(std::floor(p[k] + 0.5 + tol));
    }
    bool clear = true;
    for (int k = 0; k < 3; ++k)
      clear = clear && lo[k] == hi[k];
    for (int x = lo[0]; x <= hi[0]; ++x)
      for (int y = lo[1]; y <= hi[1]; ++y)
        for (int a = lo[2]; a <= hi[2]; ++a)
          may.insert(Vec(x, y, mod(a, g.angles)));
    const Vec cell(lo[0], lo[1], mod(lo[2], g.angles));
    if (clear && in_run && cell == run)
    {
      if (t - run_start > step * 1.02 && t <= 1 - step)
        must.insert(cell);
    }
    else
    {
      in_run = clear;
      run = cell;
      run_start = t;
    }
  }
  must.insert(Vec(0, 0, mod(g.syaw, g.angles)));
  must.erase(g.d);
}

// 1: must be offered, 0: must not, -1: too close to a limit to say.
static int primitiveClass(int angles, double res, int range, const p3::CostCoeff& cc, int i, const Vec& prim, std::string& why)
{
  const double sq = prim[0] * prim[0] + prim[1] * prim[1];
  if (sq > range * range)
  {
    why = "beyond the range";
    return 0;
  }
  if (prim[0] == 0 && prim[1] == 0)
  {
    why = "in-place turn";
    return prim[2] == 0 ? 0 : 1;
  }
  const Geometry g(angles, i, Vec(prim[0], prim[1], mod(i + prim[2], angles)));
  const double e = 1e-3;
  bool unclear = false;
  auto no = [&](double margin, const char* w) {  // margin > 0: violates the rule
    if (margin > e)
    {
      why = w;
      return true;
    }
    if (margin > -e)
      unclear = true;
    return false;
  };
  // turn of 90 degrees or more
  if (std::abs(g.dyaw) >= M_PI / 2 - 1e-9)
  {
    why = "turns by 90 degrees or more";
    return 0;
  }
  // sideways
  if (std::abs(g.my) > 0.5 - e || prim[2] == 0)
    if (no(0.5 - std::abs(g.mx), "sideways"))
      return 0;
  if (prim[2] == 0)
  {
    if (std::abs(g.my) > 1e-6)
    {
      const double a = std::abs(g.mx / g.my);
      if (no((cc.angle_resolution_aspect_ - a) / (1 + a), "large lateral offset"))
        return 0;
    }
    why = "straight";
    return unclear ? -1 : 1;
  }
  if (no(0.5 - std::abs(g.my), "turn without lateral displacement"))
    return 0;
  if (g.mx * g.my * g.dyaw < 0)
  {
    if (std::abs(g.mx) > e)
    {
      why = "turns against its displacement";
      return 0;
    }
    unclear = true;
  }
  if (sq < 9)
  {
    why = "too short for a turn";
    return 0;
  }
  const double sn = std::sin(g.dyaw), cs = std::cos(g.dyaw);
  const double r1 = (g.my + g.mx * cs / sn) * res, r2 = std::copysign(std::hypot(g.mx, g.mx * cs / sn), g.mx * sn) * res;
  if (no((std::abs(r1 - r2) - 1.5 * res) / (std::abs(r1) + res), "drifts"))
    return 0;
  if (no((cc.min_curve_radius_ - std::abs(r1 + r2) / 2) / (std::abs(r1) + res), "curve too tight"))
    return 0;
  why = "curve";
  return unclear ? -1 : 1;
}

static p3::CostCoeff drawCoeff(pbt::Src& s, double ares)
{
  p3::CostCoeff cc;
  cc.weight_decel_ = s.pick({50.0, 0.0, 5.0});
  cc.weight_backward_ = s.pick({0.9, 0.0, 3.0});
  cc.weight_ang_vel_ = 1.0;
  cc.weight_costmap_ = s.pick({50.0, 0.0, 1.0});
  cc.weight_costmap_turn_ = s.pick({0.0, 10.0, 100.0});
  cc.weight_costmap_turn_heuristics_ = s.pick({0.0, 25.0});
  cc.weight_remembered_ = 0;
  cc.weight_hysteresis_ = s.pick({5.0, 0.0, 100.0});
  cc.in_place_turn_ = s.pick({30.0, 0.0, 2.0});
  cc.hysteresis_max_dist_ = 0.1;
  cc.hysteresis_expand_ = 0.1;
  cc.min_curve_radius_ = s.pick({0.1, 0.4, 1.0, 3.0, 0.0});
  cc.max_vel_ = s.pick({0.3, 1.0});
  cc.max_ang_vel_ = s.pick({0.6, 0.1, 3.0});
  cc.angle_resolution_aspect_ = s.flip() ? 2.0 / std::tan(ares) : s.pick({1.0, 2.5, 10.0});
  if (!(std::abs(cc.angle_resolution_aspect_) < 100))
    cc.angle_resolution_aspect_ = 10;  // one or two headings
  cc.turn_penalty_cost_threshold_ = s.pick({0, 30, 100});
  return cc;
}

PBT_FACET(primitives, 2, "random resolutions, heading counts, ranges, radii and aspect limits; every displacement and heading classified by double-precision geometry; non-trivial: range >= 3 (curves possible) and at least 4 headings")
{
  pbt::Src& s = c.src;
  costmap_cspace_msgs::MapMetaData3D info;
  info.linear_resolution = s.pick({0.1, 0.05, 1.0, 0.33});
  info.angle = s.pick({4, 8, 16, 12, 3, 6, 1, 2, 10, 24, 32});
  info.angular_resolution = 2 * M_PI / info.angle;
  const int angles = info.angle;
  const int range = s.irange(1, angles > 16 ? 4 : 6);
  p3::CostCoeff cc = drawCoeff(s, info.angular_resolution);
  if (s.flip())
    cc.min_curve_radius_ = info.linear_resolution * s.real(0, 10);
  c.describe([&](std::ostream& o) { o << "cell " << info.linear_resolution << " headings " << angles << " range " << range << " min radius " << cc.min_curve_radius_ << " aspect " << cc.angle_resolution_aspect_; });
  const auto prims = p3::MotionPrimitiveBuilder::build(info, cc, range);
  PBT_CHECK(static_cast<int>(prims.size()) == angles, "headings", prims.size());
  int curves = 0;
  for (int i = 0; i < angles; ++i)
  {
    Cells got;
    for (const Vec& p : prims[i])
    {
      const Vec n(p[0], p[1], mod(p[2], angles));
      PBT_CHECK(got.insert(n).second, "duplicate", "heading " << i << " offers " << str(p) << " twice");
    }
    for (const Vec& p : got)
      PBT_CHECK(p[0] * p[0] + p[1] * p[1] <= range * range, "beyond-range", "heading " << i << " offers " << str(p));
    Vec d;
    for (d[0] = -range; d[0] <= range; ++d[0])
      for (d[1] = -range; d[1] <= range; ++d[1])
        for (d[2] = 0; d[2] < angles; ++d[2])
        {
          std::string why;
          const int k = primitiveClass(angles, info.linear_resolution, range, cc, i, d, why);
          const bool has = got.count(d) > 0;
          if (k == 1)
          {
            curves += why == "curve";
            PBT_CHECK(has, "missing", "heading " << i << " does not offer " << str(d) << " (" << why << ")");
          }
          if (k == 0)
            PBT_CHECK(!has, "undrivable", "heading " << i << " offers " << str(d) << ", which is: " << why);
        }
  }
  c.labelIf(curves > 0, "with curves");
  c.nontrivial(range >= 3 && angles >= 4);
}

PBT_FACET(motion_tables, 2, "random resolutions, heading counts, ranges and sampling widths; every entry against the densely sampled arc; non-trivial: more than one heading")
{
  pbt::Src& s = c.src;
  {
    p3::MotionCache mc;
    const float lin = s.pick({0.1, 1.0, 0.05});
    const int angles = s.pick({4, 8, 3, 1, 6, 12, 16});
    const float ang = 2 * M_PI / angles;
    const int range = s.irange(1, angles > 8 ? 3 : 4);
    const float enum_res = s.pick({0.1, 0.25, 0.05});
    const float interp = s.pick({0.5, 0.1, 1.0, 0.01});
    const uint64_t sample = s.draw(1000);
    pc::BlockMemGridmap<char, 3, 2, 0x20> gm;
    gm.reset(Vec(16, 16, angles));
    c.describe([&](std::ostream& o) { o << "cell " << lin << " headings " << angles << " range " << range << " enumeration " << enum_res << " interpolation " << interp << "; "; });
    mc.reset(lin, ang, range, gm.getAddressor(), interp, enum_res);
    for (int syaw = 0; syaw < angles; ++syaw)
    {
      Vec d;
      for (d[0] = -range; d[0] <= range; ++d[0])
        for (d[1] = -range; d[1] <= range; ++d[1])
          for (d[2] = 0; d[2] < angles; ++d[2])
          {
            const auto it = mc.find(syaw, d);
            const bool expected = (d[0] || d[1]) && d[0] * d[0] + d[1] * d[1] <= range * range;
            std::ostringstream in;
            in << "from heading " << syaw << " by " << str(d) << ": ";
            PBT_CHECK((it != mc.end(syaw)) == expected, "entry", in.str() << (expected ? "missing" : "unexpected entry"));
            if (!expected)
              continue;
            PBT_CHECK(mc.find(syaw - angles, d) == it && mc.find(syaw + angles, d) == it, "heading-wrap", in.str() << "differs for an equivalent heading");
            // a sample of the larger tables
            if (angles > 4 && pbt::mix(sample, pbt::mix(syaw * 100 + d[2], d[0] * 100 + d[1])) % (angles * angles) > 8)
              continue;
            const Geometry g(angles, syaw, d);
            if (g.straight_unclear)
              continue;
            Cells must, may, got;
            swept(g, enum_res, must, may);
            for (const Vec& v : it->second.getMotion())
            {
              PBT_CHECK(got.insert(v).second, "cell-twice", in.str() << str(v));
              PBT_CHECK(may.count(v), "cell-off-motion", in.str() << str(v) << " is not on the motion");
              PBT_CHECK(v != d, "end-cell", in.str() << "contains its end cell");
            }
            for (const Vec& v : must)
              PBT_CHECK(got.count(v), "cell-missing", in.str() << str(v) << " is swept but missing");
            const double len = std::hypot(d[0], d[1]), arc = g.straight ? len : g.arcLength();
            const double dist = it->second.getDistance();
            PBT_CHECK(dist >= len * (1 - 1e-3) && dist <= arc * (1 + 1e-2) + 1e-3 && dist >= (g.straight ? len : g.arcLength(std::lround(len / enum_res))) * (1 - 1e-2) - 1e-3, "distance", in.str() << dist << ", straight " << len << ", along the motion " << arc);
            // interpolated poses
            const auto& ip = it->second.getInterpolatedMotion();
            PBT_CHECK(!ip.empty(), "interpolation-empty", in.str());
            const double gap = std::max(interp, enum_res) * 1.5 * std::max(1.0, 1.3 * arc / len) + 0.02;
            PBT_CHECK(std::hypot(ip[0][0], ip[0][1]) < 1e-2 && std::abs(std::remainder((ip[0][2] - syaw) * ang, 2 * M_PI)) < 1e-2, "interpolation-start", in.str() << ip[0][0] << "," << ip[0][1] << "," << ip[0][2]);
            double t_from = 0;
            for (size_t k = 0; k < ip.size(); ++k)
            {
              // the nearest pose of the motion, not before that of the previous one
              double best = HUGE_VAL, best_t = t_from;
              const int n = 200;
              for (int j = static_cast<int>(t_from * n); j <= n; ++j)
              {
                double p[3];
                g.at(static_cast<double>(j) / n, p);
                const double yaw = std::remainder((ip[k][2] - p[2]) * ang, 2 * M_PI);
                const double e = std::hypot(ip[k][0] - p[0], ip[k][1] - p[1]) + std::abs(yaw);
                if (e < best)
                {
                  best = e;
                  best_t = static_cast<double>(j) / n;
                }
              }
              t_from = best_t;
              PBT_CHECK(best < 0.03 + (arc + std::abs(g.dyaw)) / 200, "interpolation-off-motion", in.str() << "pose " << k << " (" << ip[k][0] << "," << ip[k][1] << "," << ip[k][2] << ") is " << best << " off the motion");
              const double nx = k + 1 < ip.size() ? ip[k + 1][0] : d[0], ny = k + 1 < ip.size() ? ip[k + 1][1] : d[1];
              PBT_CHECK(std::hypot(nx - ip[k][0], ny - ip[k][1]) < gap, "interpolation-gap", in.str() << "gap after pose " << k << " of " << ip.size());
            }
          }
    }
    c.nontrivial(angles > 1);
  }
}

PBT_FACET(interpolate_path, 2, "random walks over offered primitives (turns, straight moves, curves), empty and single-cell paths, and moves beyond the table; non-trivial: at least one move with displacement")
{
  pbt::Src& s = c.src;
  costmap_cspace_msgs::MapMetaData3D info;
  info.linear_resolution = s.pick({0.1, 1.0});
  info.angle = s.pick({4, 8, 16});
  info.angular_resolution = 2 * M_PI / info.angle;
  const int range = s.irange(1, info.angle > 8 ? 3 : 4), angles = info.angle;
  const p3::CostCoeff cc = drawCoeff(s, info.angular_resolution);
  const auto prims = p3::MotionPrimitiveBuilder::build(info, cc, range);
  pc::BlockMemGridmap<char, 3, 2, 0x20> gm;
  gm.reset(Vec(16, 16, angles));
  const float interp = s.pick({0.5, 0.1, 1.0}), enum_res = s.pick({0.1, 0.25});
  p3::MotionCache mc;
  mc.reset(info.linear_resolution, info.angular_resolution, range, gm.getAddressor(), interp, enum_res);
  std::list<Vec> path;
  std::vector<bool> known;
  const int n = s.irange(0, 7);
  Vec p(s.irange(-20, 20), s.irange(-20, 20), s.irange(0, angles - 1));
  for (int i = 0; i < n; ++i)
  {
    path.push_back(p);
    if (s.chance(1, 12))
    {
      p = Vec(p[0] + range + s.irange(1, 3), p[1] - s.irange(0, 3), s.irange(0, angles - 1));
      known.push_back(false);
      continue;
    }
    const auto& l = prims[p[2]];
    if (l.empty())
    {
      break;
    }
    p = p + l[s.draw(l.size() - 1)];
    p.cycleUnsigned(angles);
    known.push_back(true);
  }
  c.describe([&](std::ostream& o) { o << "headings " << angles << " interpolation " << interp << " path"; for (const Vec& v : path) o << " " << str(v); });
  const auto out = mc.interpolatePath(path);
  if (path.empty())
  {
    PBT_CHECK(out.empty(), "empty", out.size());
    return;
  }
  PBT_CHECK(!out.empty(), "empty-output", "");
  auto at = [&](const Vecf& a, const Vec& v) {
    return std::hypot(a[0] - v[0], a[1] - v[1]) < 1e-2 && std::abs(std::remainder((a[2] - v[2]) * info.angular_resolution, 2 * M_PI)) < 1e-2;
  };
  PBT_CHECK(at(out.front(), path.front()), "start", out.front()[0] << "," << out.front()[1] << "," << out.front()[2]);
  PBT_CHECK(at(out.back(), path.back()), "end", out.back()[0] << "," << out.back()[1] << "," << out.back()[2]);
  // every waypoint in order, and between two of them only poses of that motion
  auto o = out.begin();
  auto w = path.begin();
  size_t k = 0;
  bool moved = false;
  while (w != path.end())
  {
    PBT_CHECK(o != out.end() && at(*o, *w), "waypoint", "waypoint " << k << " " << str(*w) << " is missing or out of order");
    Vecf prev = *o;
    ++o;
    auto nx = std::next(w);
    if (nx == path.end())
      break;
    const bool turn = (*nx)[0] == (*w)[0] && (*nx)[1] == (*w)[1];
    if (!turn && known[k])
    {
      moved = true;
      const Geometry g(angles, (*w)[2], Vec((*nx)[0] - (*w)[0], (*nx)[1] - (*w)[1], (*nx)[2]));
      const double gap = std::max(interp, enum_res) * 1.5 * 1.5 + 0.02;
      while (o != out.end() && !at(*o, *nx))
      {
        double best = HUGE_VAL;
        for (int j = 0; j <= 400; ++j)
        {
          double q[3];
          g.at(j / 400.0, q);
          best = std::min(best, std::hypot((*o)[0] - (*w)[0] - q[0], (*o)[1] - (*w)[1] - q[1]) + std::abs(std::remainder(((*o)[2] - q[2]) * info.angular_resolution, 2 * M_PI)));
        }
        PBT_CHECK(best < 0.05, "off-motion", "a pose between " << str(*w) << " and " << str(*nx) << " is off the motion by " << best << ": (" << (*o)[0] << "," << (*o)[1] << "," << (*o)[2] << ")");
        PBT_CHECK(std::hypot((*o)[0] - prev[0], (*o)[1] - prev[1]) < gap, "gap", "between " << str(*w) << " and " << str(*nx));
        prev = *o;
        ++o;
      }
      PBT_CHECK(std::hypot((*nx)[0] - prev[0], (*nx)[1] - prev[1]) < gap, "gap-end", "before " << str(*nx));
    }
    ++w;
    ++k;
  }
  PBT_CHECK(o == out.end(), "extra-poses", "");
  c.nontrivial(moved);
}

struct Scene
{
  costmap_cspace_msgs::MapMetaData3D info;
  int angles, range;
  double enum_res;
  Vecf ec;
  p3::CostCoeff cc;
  pc::BlockMemGridmap<float, 3, 2, 0x20> est;
  pc::BlockMemGridmap<char, 3, 2, 0x40> cm;
  pc::BlockMemGridmap<char, 3, 2, 0x80> hyst, rough;
  std::shared_ptr<Model> model;
  int local_range;
  bool hysteresis;
  int w() const { return info.width; }
  int h() const { return info.height; }
};

static void drawScene(pbt::Src& s, Scene& sc)
{
  sc.info.width = s.irange(3, 16);
  sc.info.height = s.irange(3, 16);
  sc.info.angle = sc.angles = s.pick({4, 4, 8, 4, 8, 4, 12, 16});
  sc.info.linear_resolution = s.pick({0.1, 1.0});
  sc.info.angular_resolution = 2 * M_PI / sc.angles;
  sc.range = s.irange(1, sc.angles > 8 ? 3 : 4);
  sc.enum_res = s.pick({0.1, 0.25});
  const float e0 = s.pick({1.0, 3.33});
  sc.ec = Vecf(e0, e0, s.pick({0.3, 0.0, 2.0}));
  sc.cc = drawCoeff(s, sc.info.angular_resolution);
  sc.local_range = s.irange(0, 6);
  sc.est.reset(Vec(sc.w(), sc.h(), 1));
  sc.est.clear(0);
  sc.cm.reset(Vec(sc.w(), sc.h(), sc.angles));
  sc.hyst.reset(Vec(sc.w(), sc.h(), sc.angles));
  sc.rough.reset(Vec(sc.w(), sc.h(), 1));
  const int density = s.pick({30, 8, 100});
  Vec p;
  for (p[1] = 0; p[1] < sc.h(); ++p[1])
    for (p[0] = 0; p[0] < sc.w(); ++p[0])
    {
      int lo = 100;
      const int column = static_cast<int>(s.draw(density));
      for (p[2] = 0; p[2] < sc.angles; ++p[2])
      {
        int v = 0;
        if (column == 1)
          v = 100;
        else if (column == 2)
          v = s.irange(0, 99);
        else if (s.chance(1, density))
          v = 100;
        sc.cm[p] = static_cast<char>(v);
        sc.hyst[p] = static_cast<char>(column == 3 ? s.irange(0, 100) : 0);
        lo = std::min(lo, v);
      }
      sc.rough[Vec(p[0], p[1], 0)] = static_cast<char>(lo);
    }
  // Sometimes the model starts from other parameters and is updated.
  const bool updated = s.chance(1, 3);
  p3::CostCoeff cc0 = updated ? drawCoeff(s, sc.info.angular_resolution) : sc.cc;
  const Vecf ec0 = updated ? Vecf(2.0f, 2.0f, 0.7f) : sc.ec;
  sc.model.reset(new Model(sc.info, ec0, updated ? sc.local_range + 3 : sc.local_range, sc.est, sc.cm, sc.hyst, sc.rough, cc0, sc.range, 0.5, sc.enum_res));
  if (updated)
    sc.model->updateCostParameters(sc.ec, sc.cc, sc.local_range);
  sc.hysteresis = s.chance(1, 3);
  sc.model->enableHysteresis(sc.hysteresis);
}

PBT_FACET(move_cost, 4, "random costmaps (columns and single headings), parameters (also changed after construction), and offered moves from every cell; acceptance against the densely sampled motion, cost against the weighted sum; non-trivial: both accepted and rejected moves")
{
  pbt::Src& s = c.src;
  Scene sc;
  drawScene(s, sc);
  const auto prims = p3::MotionPrimitiveBuilder::build(sc.info, sc.cc, sc.range);
  pc::BlockMemGridmap<char, 3, 2, 0x20> addr;
  addr.reset(Vec(sc.w(), sc.h(), sc.angles));
  p3::MotionCache mc;
  mc.reset(sc.info.linear_resolution, sc.info.angular_resolution, sc.range, addr.getAddressor(), 0.5, sc.enum_res);
  c.describe([&](std::ostream& o) {
    o << sc.w() << "x" << sc.h() << "x" << sc.angles << " cell " << sc.info.linear_resolution << " range " << sc.range << " ec " << sc.ec[0] << "," << sc.ec[2] << " hysteresis " << sc.hysteresis;
    o << " occupied:";
    Vec p;
    for (p[0] = 0; p[0] < sc.w(); ++p[0])
      for (p[1] = 0; p[1] < sc.h(); ++p[1])
        for (p[2] = 0; p[2] < sc.angles; ++p[2])
          if (sc.cm[p] > 99)
            o << str(p);
  });
  std::map<std::pair<int, std::tuple<int, int, int>>, std::pair<Cells, Cells>> memo;
  const std::vector<VWC> no_start;
  int accepted = 0, rejected = 0;
  const int tries = s.irange(1, 250);
  for (int k = 0; k < tries; ++k)
  {
    const Vec cur(s.irange(0, sc.w() - 1), s.irange(0, sc.h() - 1), s.irange(0, sc.angles - 1));
    const auto& l = prims[cur[2]];
    if (l.empty())
      continue;
    const Vec prim = l[s.draw(l.size() - 1)];
    Vec next = cur + prim;
    next.cycleUnsigned(sc.angles);
    if (next[0] < 0 || next[1] < 0 || next[0] >= sc.w() || next[1] >= sc.h())
      continue;  // the search asks about cells of the map only
    const float cost = sc.model->cost(cur, next, no_start, next);
    std::ostringstream in;
    in << "move " << str(cur) << " -> " << str(next) << " cost " << cost << ": ";
    PBT_CHECK(!std::isnan(cost), "nan", in.str());
    auto occ = [&](const Vec& v) { return sc.cm[v] > 99; };
    auto inMap = [&](const Vec& v) { return v[0] >= 0 && v[1] >= 0 && v[0] < sc.w() && v[1] < sc.h(); };
    bool must_reject = occ(cur) || occ(next), may_reject = must_reject;
    double expected = 0;
    bool formula = true;
    const double back = 1.0 + sc.cc.weight_backward_;
    if (prim[0] == 0 && prim[1] == 0)
    {
      // either way round for a half turn
      bool hit[2];
      double sum[2];
      const int up = mod(next[2] - cur[2], sc.angles), down = sc.angles - up;
      for (int dir = 0; dir < 2; ++dir)
      {
        hit[dir] = false;
        sum[dir] = 0;
        const int n = dir ? down : up;
        for (int i = 0; i < n; ++i)
        {
          const Vec v(cur[0], cur[1], mod(cur[2] + (dir ? -i : i), sc.angles));
          hit[dir] = hit[dir] || occ(v);
          if (sc.cm[v] >= sc.cc.turn_penalty_cost_threshold_)
            sum[dir] += sc.cm[v];
        }
      }
      const int best = up < down ? 0 : 1;
      if (up == down)
      {
        must_reject = must_reject || (hit[0] && hit[1]);
        may_reject = may_reject || hit[0] || hit[1];
        formula = sum[0] == sum[1];
      }
      else
      {
        must_reject = must_reject || hit[best];
        may_reject = may_reject || hit[best];
      }
      const int n = std::min(up, down);
      expected = sc.ec[2] * n + sc.cc.in_place_turn_ +
                 sum[best] * sc.info.angular_resolution * (sc.cc.weight_costmap_turn_ / 100.0 + sc.ec[2] / sc.ec[0] * sc.cc.weight_costmap_turn_heuristics_ / 100.0);
    }
    else
    {
      const Vec d(prim[0], prim[1], next[2]);
      const Geometry g(sc.angles, cur[2], d);
      const auto key = std::make_pair(cur[2], std::make_tuple(d[0], d[1], d[2]));
      auto it = memo.find(key);
      if (it == memo.end())
      {
        it = memo.insert({key, {}}).first;
        swept(g, sc.enum_res, it->second.first, it->second.second);
      }
      for (const Vec& v : it->second.first)
      {
        const Vec q(cur[0] + v[0], cur[1] + v[1], v[2]);
        must_reject = must_reject || !inMap(q) || occ(q);
      }
      for (const Vec& v : it->second.second)
      {
        const Vec q(cur[0] + v[0], cur[1] + v[1], v[2]);
        may_reject = may_reject || !inMap(q) || occ(q);
      }
      const bool curve = prim[2] != 0;
      if (curve && (cur[0] < sc.range || cur[1] < sc.range || cur[0] >= sc.w() - sc.range || cur[1] >= sc.h() - sc.range))
        may_reject = true;  // curves next to the border are not searched
      const double len = std::hypot(prim[0], prim[1]);
      const int turn = std::min(mod(prim[2], sc.angles), mod(-prim[2], sc.angles));
      if (std::abs(g.mx) < 1e-3)
        formula = false;
      expected = (sc.ec[0] * len + sc.ec[2] * turn) * (g.mx < 0 ? back : 1.0);
      double sum = 0, sum_turn = 0, sum_hyst = 0;
      const auto page = mc.find(cur[2], d);
      const auto& cells = page->second.getMotion();
      for (const Vec& v : cells)
      {
        const Vec q(cur[0] + v[0], cur[1] + v[1], v[2]);
        if (!inMap(q))
          continue;
        sum += sc.cm[q];
        sum_hyst += sc.hyst[q];
        if (sc.cm[q] >= sc.cc.turn_penalty_cost_threshold_)
          sum_turn += sc.cm[q];
      }
      const double dist = page->second.getDistance(), num = cells.size(), lin = sc.info.linear_resolution;
      expected += sum * lin * dist * sc.cc.weight_costmap_ / (100 * num);
      if (sc.hysteresis)
        expected += sum_hyst * lin * dist * sc.cc.weight_hysteresis_ / (100 * num);
      if (!curve)
        expected += sc.ec[2] * std::abs(g.my / g.mx) * sc.info.angular_resolution / (2 * M_PI);
      else
      {
        expected += sum_turn * sc.info.angular_resolution * turn * sc.cc.weight_costmap_turn_ / (100 * num);
        const double sn = std::sin(g.dyaw), cs = std::cos(g.dyaw);
        const double r1 = (g.my + g.mx * cs / sn) * lin, r2 = std::copysign(std::hypot(g.mx, g.mx * cs / sn), g.mx * sn) * lin;
        const double need = std::abs(sc.cc.max_vel_ / r1);
        if (std::abs(need - sc.cc.max_ang_vel_) < 1e-3 * (1 + need))
          formula = false;
        if (need > sc.cc.max_ang_vel_)
          expected += len * lin * std::abs((r1 + r2) / 2 * sc.cc.max_ang_vel_ / sc.cc.max_vel_) * sc.cc.weight_decel_;
      }
    }
    if (must_reject)
      PBT_CHECK(cost < 0, "accepted", in.str() << "the motion touches an occupied cell or leaves the map");
    if (!may_reject)
      PBT_CHECK(cost >= 0, "rejected", in.str() << "the motion touches no occupied cell");
    (cost < 0 ? rejected : accepted)++;
    if (cost < 0)
      continue;
    PBT_CHECK(std::isfinite(cost), "infinite", in.str());
    if (formula)
      PBT_CHECK(std::abs(cost - expected) < 2e-3 * (1 + std::abs(expected)), "cost", in.str() << "expected " << expected);
  }
  c.nontrivial(accepted > 0 && rejected > 0);
}

PBT_FACET(estimate, 2, "random goals and fields: the estimate is the field plus the cost of the remaining turn; it is consistent with every accepted move when the field is the straight-line cost; search lists by distance from the starts; non-trivial: an accepted move was compared")
{
  pbt::Src& s = c.src;
  Scene sc;
  drawScene(s, sc);
  const Vec goal(s.irange(0, sc.w() - 1), s.irange(0, sc.h() - 1), s.irange(0, sc.angles - 1));
  Vec p;
  for (p[1] = 0, p[2] = 0; p[1] < sc.h(); ++p[1])
    for (p[0] = 0; p[0] < sc.w(); ++p[0])
      sc.est[p] = s.chance(1, 40) ? FMAX : static_cast<float>(sc.ec[0] * std::hypot(p[0] - goal[0], p[1] - goal[1]));
  const auto prims = p3::MotionPrimitiveBuilder::build(sc.info, sc.cc, sc.range);
  std::vector<VWC> starts;
  for (int i = s.irange(0, 3); i > 0; --i)
    starts.push_back(VWC(Vec(s.irange(0, sc.w() - 1), s.irange(0, sc.h() - 1), s.irange(0, sc.angles - 1))));
  c.describe([&](std::ostream& o) { o << sc.w() << "x" << sc.h() << "x" << sc.angles << " goal " << str(goal) << " local range " << sc.local_range << " starts"; for (auto& v : starts) o << " " << str(v.v_); });
  const int tries = s.irange(1, 40);
  for (int k = 0; k < tries; ++k)
  {
    const Vec cur(s.irange(0, sc.w() - 1), s.irange(0, sc.h() - 1), s.irange(0, sc.angles - 1));
    const float e = sc.model->costEstim(cur, goal);
    const float field = sc.est[Vec(cur[0], cur[1], 0)];
    const int turn = std::min(mod(cur[2] - goal[2], sc.angles), mod(goal[2] - cur[2], sc.angles));
    if (field == FMAX)
      PBT_CHECK(e == FMAX, "unreachable", str(cur) << " estimate " << e);
    else
      PBT_CHECK(std::abs(e - (field + sc.ec[2] * turn)) < 1e-3 * (1 + e), "estimate", str(cur) << " estimate " << e << " field " << field << " turn " << turn);
    // offered moves
    bool local = false, local_unclear = false;
    for (const auto& v : starts)
    {
      const double dx = v.v_[0] - cur[0], dy = v.v_[1] - cur[1];
      local = local || dx * dx + dy * dy < sc.local_range * sc.local_range;
    }
    const auto& offered = sc.model->searchGrids(cur, starts, goal);
    Cells got, want;
    for (const Vec& v : offered)
      PBT_CHECK(got.insert(Vec(v[0], v[1], mod(v[2], sc.angles))).second, "offered-twice", str(v));
    if (local)
      for (const Vec& v : prims[cur[2]])
        want.insert(v);
    else
      for (int x = -sc.range; x <= sc.range; ++x)
        for (int y = -sc.range; y <= sc.range; ++y)
          if (x * x + y * y <= sc.range * sc.range)
            want.insert(Vec(x, y, 0));
    got.erase(Vec(0, 0, 0));
    want.erase(Vec(0, 0, 0));
    PBT_CHECK(got == want, "offered", (local ? "near" : "far from") << " the start at " << str(cur) << ": " << got.size() << " moves offered, " << want.size() << " expected");
    if (field == FMAX || offered.empty())
      continue;
    Vec next = cur + offered[s.draw(offered.size() - 1)];
    next.cycleUnsigned(sc.angles);
    if (next[0] < 0 || next[1] < 0 || next[0] >= sc.w() || next[1] >= sc.h())
      continue;
    const float cost = sc.model->cost(cur, next, starts, goal);
    {
      // A long-range move exactly sideways costs infinity (times a turn weight which may be 0).
      const double t = cur[2] * 2 * M_PI / sc.angles;
      if (!local && std::abs(std::cos(t) * (next[0] - cur[0]) + std::sin(t) * (next[1] - cur[1])) < 1e-3)
        continue;
    }
    const float en = sc.model->costEstim(next, goal);
    PBT_CHECK(!std::isnan(cost), "nan", str(cur) << " -> " << str(next));
    if (cost < 0 || en == FMAX)
      continue;
    PBT_CHECK(e <= cost + en + 1e-3 * (1 + e), "inconsistent", "estimate at " << str(cur) << " is " << e << " but " << str(next) << " costs " << cost << " and has " << en);
    c.nontrivial();
  }
}

PBT_FACET(move_cost_2d, 1, "the 2-D model (used to check which goals can be reached): acceptance by the swept cells, cost by the weighted sum, estimate by the straight line; non-trivial: both accepted and rejected moves")
{
  pbt::Src& s = c.src;
  Scene sc;
  drawScene(s, sc);
  const p3::GridAstarModel2D m2(sc.model);
  int acc = 0, rej = 0;
  const std::vector<VWC> starts;
  c.describe([&](std::ostream& o) { o << sc.w() << "x" << sc.h() << " range " << sc.range; });
  for (int k = s.irange(1, 60); k > 0; --k)
  {
    const Vec cur(s.irange(0, sc.w() - 1), s.irange(0, sc.h() - 1), 0);
    const auto& l = m2.searchGrids(cur, starts, cur);
    const Vec d = l[s.draw(l.size() - 1)];
    const Vec next = cur + d;
    if ((d[0] == 0 && d[1] == 0) || next[0] < 0 || next[1] < 0 || next[0] >= sc.w() || next[1] >= sc.h())
      continue;
    const float cost = m2.cost(cur, next, starts, next);
    const Geometry g(sc.angles, 0, Vec(d[0], d[1], 0));
    Cells must, may;
    swept(g, sc.enum_res, must, may);
    bool must_reject = false, may_reject = false;
    double lo = 0;
    for (const Vec& v : must)
      must_reject = must_reject || sc.rough[Vec(cur[0] + v[0], cur[1] + v[1], 0)] > 99;
    for (const Vec& v : may)
      may_reject = may_reject || sc.rough[Vec(cur[0] + v[0], cur[1] + v[1], 0)] > 99;
    std::ostringstream in;
    in << "move " << str(cur) << " -> " << str(next) << " cost " << cost;
    if (must_reject)
      PBT_CHECK(cost < 0, "accepted", in.str());
    if (!may_reject)
      PBT_CHECK(cost >= 0, "rejected", in.str());
    (cost < 0 ? rej : acc)++;
    const double len = std::hypot(d[0], d[1]);
    PBT_CHECK(std::abs(m2.costEstim(cur, next) - sc.ec[0] * len) < 1e-3 * (1 + sc.ec[0] * len), "estimate", in.str());
    if (cost < 0)
      continue;
    lo = sc.ec[0] * len;
    const double hi = lo + 100 * sc.info.linear_resolution * len * sc.cc.weight_costmap_ / 100;
    PBT_CHECK(cost >= lo - 1e-3 * (1 + lo) && cost <= hi + 1e-3 * (1 + hi), "cost-range", in.str() << " expected within " << lo << " and " << hi);
  }
  c.nontrivial(acc > 0 && rej > 0);
}

PBT_FACET(grid_metric, 2, "random map geometry (origins up to 1 km away), cells inside and outside of the map, headings over several turns, positions inside a cell; non-trivial: always")
{
  pbt::Src& s = c.src;
  costmap_cspace_msgs::MapMetaData3D m;
  m.linear_resolution = s.pick({0.05, 0.1, 1.0, 0.03, 0.5});
  m.angle = s.pick({16, 4, 8, 1, 12, 64, 7});
  m.angular_resolution = 2 * M_PI / m.angle;
  m.width = 100;
  m.height = 100;
  m.origin.position.x = s.sym(s.pick({0.0, 10.0, 1000.0}));
  m.origin.position.y = s.sym(s.pick({0.0, 10.0, 1000.0}));
  m.origin.orientation.w = 1;
  c.describe([&](std::ostream& o) { o << "cell " << m.linear_resolution << " headings " << m.angle << " origin (" << m.origin.position.x << "," << m.origin.position.y << ")"; });
  namespace gmc = p3::grid_metric_converter;
  for (int k = s.irange(1, 20); k > 0; --k)
  {
    const int x = s.irange(-200, 1000), y = s.irange(-200, 1000), a = s.irange(-3 * static_cast<int>(m.angle), 3 * static_cast<int>(m.angle));
    float gx, gy, ga;
    gmc::grid2Metric(m, x, y, a, gx, gy, ga);
    const double ex = (x + 0.5) * m.linear_resolution + m.origin.position.x, ey = (y + 0.5) * m.linear_resolution + m.origin.position.y;
    std::ostringstream in;
    in << "cell (" << x << "," << y << "," << a << ") -> (" << gx << "," << gy << "," << ga << ")";
    PBT_CHECK(std::abs(gx - ex) < 1e-6 * (10 + std::abs(ex)) && std::abs(gy - ey) < 1e-6 * (10 + std::abs(ey)), "centre", in.str());
    PBT_CHECK(std::abs(ga - a * 2 * M_PI / m.angle) < 1e-4, "heading", in.str());
    int bx, by, ba;
    gmc::metric2Grid(m, bx, by, ba, gx, gy, ga);
    PBT_CHECK(bx == x && by == y && ba == a, "round-trip", in.str() << " -> (" << bx << "," << by << "," << ba << ")");
    // any position inside the cell
    const double fx = s.real(0.02, 0.98), fy = s.real(0.02, 0.98), fa = s.real(-0.49, 0.49);
    const double px = (x + fx) * m.linear_resolution + m.origin.position.x, py = (y + fy) * m.linear_resolution + m.origin.position.y;
    gmc::metric2Grid(m, bx, by, ba, static_cast<float>(px), static_cast<float>(py), static_cast<float>((a + fa) * m.angular_resolution));
    PBT_CHECK(bx == x && by == y && ba == a, "contains", in.str() << " position at (" << fx << "," << fy << "," << fa << ") of the cell -> (" << bx << "," << by << "," << ba << ")");
    float rx, ry, ra;
    gmc::metric2Grid(m, rx, ry, ra, static_cast<float>(px), static_cast<float>(py), static_cast<float>((a + fa) * m.angular_resolution));
    const double tol = 1e-2;
    PBT_CHECK(std::abs(rx - (x + fx)) < tol && std::abs(ry - (y + fy)) < tol && std::abs(ra - (a + fa)) < tol, "real-cell", in.str() << " -> " << rx << "," << ry << "," << ra);
    float hx, hy, ha;
    gmc::grid2Metric(m, static_cast<float>(x + fx - 0.5), static_cast<float>(y + fy - 0.5), static_cast<float>(a + fa), hx, hy, ha);
    PBT_CHECK(std::abs(hx - px) < 2e-2 * m.linear_resolution + 1e-3 && std::abs(hy - py) < 2e-2 * m.linear_resolution + 1e-3 && std::abs(ha - (a + fa) * m.angular_resolution) < 1e-3, "real-metric", in.str());
  }
  // a path
  nav_msgs::Path path;
  path.header.frame_id = "map_frame";
  path.header.stamp = ros::Time(12.5);
  std::list<Vecf> g;
  std::vector<Vecf> all;
  const int appends = s.irange(1, 2);
  for (int q = 0; q < appends; ++q)
  {
    g.clear();
    for (int k = s.irange(0, 6); k > 0; --k)
      g.push_back(Vecf(static_cast<float>(s.real(-5, 100)), static_cast<float>(s.real(-5, 100)), static_cast<float>(s.real(-20, 20))));
    gmc::appendGridPath2MetricPath(m, g, path);
    all.insert(all.end(), g.begin(), g.end());
  }
  PBT_CHECK(path.poses.size() == all.size(), "path-size", path.poses.size() << " poses for " << all.size());
  for (size_t i = 0; i < all.size(); ++i)
  {
    const auto& ps = path.poses[i];
    const double ex = (all[i][0] + 0.5) * m.linear_resolution + m.origin.position.x, ey = (all[i][1] + 0.5) * m.linear_resolution + m.origin.position.y, ea = all[i][2] * m.angular_resolution;
    PBT_CHECK(std::abs(ps.pose.position.x - ex) < 1e-3 && std::abs(ps.pose.position.y - ey) < 1e-3 && ps.pose.position.z == 0, "path-position", i);
    const auto& r = ps.pose.orientation;
    PBT_CHECK(std::abs(r.x) < 1e-9 && std::abs(r.y) < 1e-9 && std::abs(r.z * r.z + r.w * r.w - 1) < 1e-6, "path-orientation", i);
    PBT_CHECK(std::abs(std::remainder(2 * std::atan2(r.z, r.w) - ea, 2 * M_PI)) < 1e-3, "path-yaw", i);
    PBT_CHECK(ps.header.frame_id == "map_frame" && ps.header.stamp == ros::Time(12.5), "path-header", i);
  }
  c.nontrivial();
}
