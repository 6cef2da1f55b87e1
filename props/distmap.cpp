// P10: goal distance field, built and incrementally updated, against Dijkstra.
#include <cmath>
#include <limits>
#include <queue>
#include <vector>

#include <omp.h>

#include <costmap_cspace_msgs/MapMetaData3D.h>
#include <planner_cspace/planner_3d/costmap_bbf.h>
#include <planner_cspace/planner_3d/distance_map.h>
#include <planner_cspace/planner_3d/grid_astar_model.h>

#include "pbt.h"

namespace pc = planner_cspace;
namespace p3 = planner_cspace::planner_3d;
using Astar = pc::GridAstar<3, 2>;
using Vec = Astar::Vec;
static constexpr float FMAX = std::numeric_limits<float>::max();

// Remembered costs handed to the field as they are (the memory itself is property P06).
class Memory : public p3::CostmapBBF
{
public:
  int w = 0;
  std::vector<char> v;
  void reset(const Vec&) override {}
  void clear() override {}
  char getCost(const Vec& p) const override { return v[p[0] + p[1] * w]; }
  void remember(const pc::BlockMemGridmapBase<char, 3, 2>* const, const Vec&, const float, const float, const int, const int) override {}
  void updateCostmap() override {}
  void forEach(const std::function<void(const Vec&, pc::bbf::BinaryBayesFilter&)>) override {}
};

struct Field
{
  int w, h;
  std::vector<int> cm;
  std::vector<int> mem;
  double ec, res, w_cost, w_mem;
  int at(int x, int y) const { return x + y * w; }

  // Least cost from the goal, the goal itself counting 0 and every other cell
  // reached from it half a straight cell less (the documented start value).
  std::vector<double> solve(int gx, int gy, int reach = 4) const
  {
    std::vector<double> g(w * h, HUGE_VAL);
    using E = std::pair<double, int>;
    std::priority_queue<E, std::vector<E>, std::greater<E>> q;
    g[at(gx, gy)] = -0.5 * ec;
    q.push({-0.5 * ec, at(gx, gy)});
    while (!q.empty())
    {
      const E t = q.top();
      q.pop();
      if (t.first > g[t.second])
        continue;
      const int px = t.second % w, py = t.second / w;
      for (int dx = -reach; dx <= reach; ++dx)
        for (int dy = -reach; dy <= reach; ++dy)
        {
          const int sq = dx * dx + dy * dy;
          if (sq == 0 || sq > 16)
            continue;
          const int nx = px + dx, ny = py + dy;
          if (nx < 0 || ny < 0 || nx >= w || ny >= h)
            continue;
          const double len = std::sqrt(static_cast<double>(sq));
          const int n = static_cast<int>(len + 1e-9);
          double sum = 0, sum_mem = 0;
          bool hit = false;
          for (int i = 0; i < n && !hit; ++i)
          {
            const int cx = px + std::lround(static_cast<double>(dx) * i / n), cy = py + std::lround(static_cast<double>(dy) * i / n);
            hit = cm[at(cx, cy)] > 99;
            sum += cm[at(cx, cy)];
            sum_mem += mem[at(cx, cy)];
          }
          if (hit)
            continue;
          const double cost = ec * len + res / 100.0 * (len / n) * (sum * w_cost + sum_mem * w_mem);
          const double v = t.first + std::max(0.0, cost);
          if (v < g[at(nx, ny)])
          {
            g[at(nx, ny)] = v;
            q.push({v, at(nx, ny)});
          }
        }
    }
    g[at(gx, gy)] = 0;
    return g;
  }
};

struct Setup
{
  Field f;
  int range, local_range, longcut, tasks, threads;
  Astar::Gridmap<char, 0x80> rough;
  Astar::Gridmap<char, 0x40> cm;
  Astar::Gridmap<char, 0x80> hyst;
  std::shared_ptr<Memory> mem = std::make_shared<Memory>();
  p3::GridAstarModel3D::Ptr model;
  p3::CostCoeff cc;

  void drawSize(pbt::Src& s)
  {
    f.w = s.irange(1, s.pick({6, 12, 26, 40}));
    f.h = s.irange(1, s.pick({3, 6, 12, 26}));
  }
  void drawParams(pbt::Src& s)
  {
    f.ec = static_cast<float>(s.pick({0.5, 1.0, 0.3}));
    f.res = static_cast<float>(s.pick({1.0, 0.1, 0.5}));
    f.w_cost = static_cast<float>(s.pick({1.0, 0.0, 50.0, 5.0}));
    f.w_mem = static_cast<float>(s.pick({0.0, 0.0, 1.0, 20.0}));
    range = s.irange(1, 4);
    local_range = s.irange(0, 8);
    longcut = s.irange(0, 8);
    tasks = s.pick({1, 2, 8, 256});
    threads = s.pick({1, 1, 2});
  }
  void fill(pbt::Src& s)
  {
    f.cm.assign(f.w * f.h, 0);
    f.mem.assign(f.w * f.h, 0);
    mem->w = f.w;
    mem->v.assign(f.w * f.h, 0);
    rough.reset(Vec(f.w, f.h, 1));
    rough.clear(0);
    const int kind = s.weighted({2, 2, 2, 1});
    const int walls = s.irange(0, 4);
    for (int k = 0; k < walls; ++k)
    {
      const bool vert = s.flip();
      const int c = vert ? s.irange(0, f.w - 1) : s.irange(0, f.h - 1);
      const int n = vert ? f.h : f.w;
      const int gap = s.irange(-1, n - 1);
      for (int i = 0; i < n; ++i)
        if (i != gap)
          f.cm[vert ? f.at(c, i) : f.at(i, c)] = 100;
    }
    if (kind > 0)
      for (int& v : f.cm)
      {
        const int r = static_cast<int>(s.draw(kind == 1 ? 19 : 7));
        if (r == 1)
          v = 100;
        else if (r == 2)
          v = s.irange(0, 99);
      }
    if (f.w_mem > 0)
      for (int& v : f.mem)
        if (s.chance(1, 10))
          v = s.irange(0, 100);
    push();
  }
  void push()
  {
    for (int y = 0; y < f.h; ++y)
      for (int x = 0; x < f.w; ++x)
        rough[Vec(x, y, 0)] = static_cast<char>(f.cm[f.at(x, y)]);
    for (size_t i = 0; i < f.mem.size(); ++i)
      mem->v[i] = static_cast<char>(f.mem[i]);
  }
  void makeModel(const pc::BlockMemGridmapBase<float, 3, 2>& g)
  {
    costmap_cspace_msgs::MapMetaData3D info;
    info.width = f.w;
    info.height = f.h;
    info.angle = 4;
    info.linear_resolution = f.res;
    info.angular_resolution = M_PI / 2;
    cc = p3::CostCoeff();
    cc.weight_costmap_ = f.w_cost;
    cc.weight_remembered_ = f.w_mem;
    cc.angle_resolution_aspect_ = 1;
    model.reset(new p3::GridAstarModel3D(info, ecv(), local_range, g, cm, hyst, rough, cc, 1));
  }
  Astar::Vecf ecv() const { return Astar::Vecf(static_cast<float>(f.ec), static_cast<float>(f.ec), 0.2f); }
  p3::DistanceMap::Params params() const
  {
    p3::DistanceMap::Params p;
    p.euclid_cost = ecv();
    p.range = range;
    p.local_range = local_range;
    p.longcut_range = longcut;
    p.size = Vec(f.w, f.h, 1);
    p.resolution = f.res;
    return p;
  }
};

static std::string show(const Field& f, int sx, int sy, int gx, int gy)
{
  std::ostringstream o;
  o << f.w << "x" << f.h << " ec " << f.ec << " res " << f.res << " weights " << f.w_cost << "," << f.w_mem << "\n";
  for (int y = 0; y < f.h; ++y)
  {
    for (int x = 0; x < f.w; ++x)
    {
      if (x == sx && y == sy)
        o << " S ";
      else if (x == gx && y == gy)
        o << " G ";
      else if (f.cm[f.at(x, y)] > 99)
        o << " ##";
      else
      {
        o.width(3);
        o << f.cm[f.at(x, y)];
      }
    }
    o << "\n";
  }
  return o.str();
}

static void compare(pbt::Ctx& c, const Setup& st, const p3::DistanceMap& dm, int sx, int sy, int gx, int gy, bool incremental, const char* what)
{
  const Field& f = st.f;
  const auto ref = f.solve(gx, gy);
  // An incremental update restarts from a frontier one cell wide, so it promises
  // no better than single-cell moves there, and counts the goal as 0.
  const auto upper = incremental ? f.solve(gx, gy, 1) : ref;
  const double slack = incremental ? 0.5 * f.ec : 0;
  const double rs = ref[f.at(sx, sy)];
  const double limit = rs + f.ec * (st.range + st.local_range + st.longcut);
  int beyond = 0, unreachable = 0, exact = 0;
  for (int y = 0; y < f.h; ++y)
    for (int x = 0; x < f.w; ++x)
    {
      const float v = dm[Vec(x, y, 0)];
      const double r = ref[f.at(x, y)];
      const double e = 1e-3 * (1 + (std::isfinite(r) ? std::abs(r) : 0));
      std::ostringstream in;
      in << what << ": cell (" << x << "," << y << ") ";
      if (!std::isfinite(r))
      {
        ++unreachable;
        PBT_CHECK(v == FMAX, std::string(what) + "-unreachable", in.str() << "has value " << v << " although the goal cannot be reached\n" << show(f, sx, sy, gx, gy));
        continue;
      }
      PBT_CHECK(v >= r - e, std::string(what) + "-too-small", in.str() << "has value " << v << " but the least cost is " << r << "\n" << show(f, sx, sy, gx, gy));
      if (!std::isfinite(rs) || r <= limit - 2 * e)
      {
        ++exact;
        PBT_CHECK(v <= upper[f.at(x, y)] + 2 * e + slack, std::string(what) + "-too-large", in.str() << "has value " << v << " but the least cost is " << r << " and " << upper[f.at(x, y)] << " with single-cell moves" << "\n" << show(f, sx, sy, gx, gy));
      }
      else
        ++beyond;
    }
  c.labelIf(beyond > 0, std::string(what) + ": cells beyond the robot's margin");
  c.labelIf(unreachable > 0, std::string(what) + ": unreachable cells");
  c.labelIf(!std::isfinite(rs), std::string(what) + ": robot cannot reach the goal");
  c.nontrivial(exact > 10);
}

PBT_FACET(field_create, 2, "random maps (walls with gaps, noise, graded and remembered costs), goals, robots, weights, task counts and threads, also rebuilding on a used instance of another size; non-trivial: more than 10 cells compared exactly")
{
  pbt::Src& s = c.src;
  Setup st;
  p3::DistanceMap dm(st.rough, st.mem);
  const int builds = s.irange(1, 3);
  for (int k = 0; k < builds; ++k)
  {
    if (k == 0 || s.flip())
      st.drawSize(s);
    st.drawParams(s);
    st.fill(s);
    omp_set_num_threads(st.threads);
    st.makeModel(dm.gridmap());
    dm.setParams(st.cc, st.tasks);
    dm.init(st.model, st.params());
    const int sx = s.irange(0, st.f.w - 1), sy = s.irange(0, st.f.h - 1), gx = s.irange(0, st.f.w - 1), gy = s.irange(0, st.f.h - 1);
    c.describe([&](std::ostream& o) { o << "build " << k << ": tasks " << st.tasks << " " << show(st.f, sx, sy, gx, gy); });
    dm.create(Vec(sx, sy, s.irange(0, 3)), Vec(gx, gy, s.irange(0, 3)));
    compare(c, st, dm, sx, sy, gx, gy, false, "create");
  }
}

PBT_FACET(field_update, 3, "histories of 1..8 map changes inside a rectangle, moving robots, changing goals; the updated field against Dijkstra on the current map; non-trivial: more than 10 cells compared exactly")
{
  pbt::Src& s = c.src;
  Setup st;
  st.drawSize(s);
  st.drawParams(s);
  p3::DistanceMap dm(st.rough, st.mem);
  st.fill(s);
  omp_set_num_threads(st.threads);
  st.makeModel(dm.gridmap());
  dm.setParams(st.cc, st.tasks);
  dm.init(st.model, st.params());
  Field& f = st.f;
  int sx = s.irange(0, f.w - 1), sy = s.irange(0, f.h - 1), gx = s.irange(0, f.w - 1), gy = s.irange(0, f.h - 1);
  c.describe([&](std::ostream& o) { o << "tasks " << st.tasks << " range " << st.range << " local " << st.local_range << " longcut " << st.longcut << " " << show(f, sx, sy, gx, gy); });
  const bool first_is_create = s.flip();
  if (first_is_create)
    dm.create(Vec(sx, sy, 0), Vec(gx, gy, 0));
  const int steps = s.irange(1, 8);
  for (int k = 0; k < steps; ++k)
  {
    if (s.chance(1, 3))
    {
      sx = s.irange(0, f.w - 1);
      sy = s.irange(0, f.h - 1);
    }
    if (s.chance(1, 10))
    {
      gx = s.irange(0, f.w - 1);
      gy = s.irange(0, f.h - 1);
    }
    const int x0 = s.irange(0, f.w - 1), x1 = std::min(f.w - 1, x0 + s.irange(0, 8)), y0 = s.irange(0, f.h - 1), y1 = std::min(f.h - 1, y0 + s.irange(0, 8));
    const int kind = s.weighted({3, 3, 2, 1});
    for (int y = y0; y <= y1; ++y)
      for (int x = x0; x <= x1; ++x)
      {
        int& v = f.cm[f.at(x, y)];
        if (kind == 0)
          v = s.chance(1, 3) ? 100 : v;
        else if (kind == 1)
          v = s.chance(1, 3) ? 0 : v;
        else if (kind == 2)
          v = s.chance(1, 3) ? s.irange(0, 100) : v;
        else
          v = 100;
      }
    st.push();
    if (f.w_mem > 0)
      for (int y = y0; y <= y1; ++y)
        for (int x = x0; x <= x1; ++x)
          if (s.chance(1, 8))
            f.mem[f.at(x, y)] = s.irange(0, 100);
    st.push();
    // A robot outside of the map gets no field; whatever changed meanwhile counts when it is back.
    const bool outside = s.chance(1, 8);
    const bool goal_blocked = f.cm[f.at(gx, gy)] > 99;
    c.describe([&](std::ostream& o) { o << "step " << k << " changed [" << x0 << ".." << x1 << "]x[" << y0 << ".." << y1 << "] " << show(f, sx, sy, gx, gy); });
    if (outside)
    {
      const int m = s.irange(1, 3);
      const Vec out(s.pick({-1, f.w, 1000, -1000}), s.irange(-3, f.h + 3), 0);
      c.label("robot outside of the map");
      c.describe([&](std::ostream& o) { o << "(robot at " << out[0] << "," << out[1] << ")\n"; });
      if (goal_blocked)
        dm.create(out, Vec(gx, gy, 0));
      else
        dm.update(out, Vec(gx, gy, 0),
                  p3::DistanceMap::Rect(Vec(std::max(0, x0 - m), std::max(0, y0 - m), 0), Vec(std::min(f.w - 1, x1 + m), std::min(f.h - 1, y1 + m), 0)));
    }
    else if (goal_blocked)
    {
      dm.create(Vec(sx, sy, 0), Vec(gx, gy, 0));  // what the planner does when the goal cell gets occupied
      compare(c, st, dm, sx, sy, gx, gy, false, "create");
    }
    else
    {
      const int m = s.irange(1, 3);
      dm.update(Vec(sx, sy, 0), Vec(gx, gy, 0),
                p3::DistanceMap::Rect(Vec(std::max(0, x0 - m), std::max(0, y0 - m), 0), Vec(std::min(f.w - 1, x1 + m), std::min(f.h - 1, y1 + m), 0)));
      compare(c, st, dm, sx, sy, gx, gy, true, "update");
    }
  }
  c.label(steps > 3 ? "more than 3 updates" : "up to 3 updates");
}
