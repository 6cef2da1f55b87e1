PC = "planner_cspace/include/planner_cspace/"
PCI = "planner_cspace/include"
ASTAR = PC + "grid_astar.h"
SEEDS = []

ASTAR_DEMO = r'''
#include <cmath>
#include <cstdio>
#include <list>
#include <vector>
#include <functional>
#include <limits>
#include <string>
#include <algorithm>
#include <cstring>
#include <queue>
#include <map>
#include <planner_cspace/grid_astar.h>
using namespace planner_cspace;
using Vec = CyclicVecInt<2, 2>;
using A = GridAstar<2, 2>;
struct Model : GridAstarModelBase<2, 2>
{
  std::vector<Vec> list;
  std::function<float(const Vec&, const Vec&)> c;
  std::function<float(const Vec&, const Vec&)> h = [](const Vec&, const Vec&) { return 0.f; };
  float cost(const Vec& a, const Vec& b, const std::vector<VecWithCost>&, const Vec&) const override { return c(a, b); }
  float costEstim(const Vec& a, const Vec& b) const override { return h(a, b); }
  const std::vector<Vec>& searchGrids(const Vec&, const std::vector<VecWithCost>&, const Vec&) const override { return list; }
};
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
'''

SEEDS.append(dict(
    id="P01-leave-total-cost", property="P01",
    needs="a non-zero leave cost, a goal that cannot be entered itself, and a start farther away than the leave cost",
    breaks="the leave cost is compared with the total cost instead of the remaining one: a search that must succeed at a cell near the goal fails",
    edits=[(ASTAR, "            if (center.v_ == e || center.p_ - center.p_raw_ < cost_leave)\n", "            if (center.v_ == e || center.p_ < cost_leave)\n")],
    inc=[PCI], demo=ASTAR_DEMO + r'''
int main()
{
  // Leaving early must be decided by the remaining cost alone.
  auto m = std::make_shared<Model>();
  m->list = {Vec(1, 0), Vec(-1, 0), Vec(0, 1), Vec(0, -1)};
  m->c = [](const Vec&, const Vec&) { return 1.f; };
  m->h = [](const Vec& a, const Vec& b) { return std::abs(a[0] - b[0]) + std::abs(a[1] - b[1]); };
  // the goal is walled in; the cell next to it is within the leave cost
  m->c = [](const Vec& a, const Vec& b) { return b == Vec(10, 10) ? -1.f : 1.f; };
  A a(Vec(16, 16));
  std::list<Vec> path;
  const bool r = a.search({A::VecWithCost(Vec(1, 1))}, Vec(10, 10), path, m, [](const std::list<Vec>&, const SearchStats&) { return true; }, 2, 1e6);
  EXPECT(r);
  EXPECT(path.size() && m->h(path.back(), Vec(10, 10)) < 2);
  return bad;
}
'''))

SEEDS.append(dict(
    id="P02-stale-parent", property="P02",
    needs="a cell that is first reached over an expensive move and improved later by a cheaper route before it is expanded (non-uniform move costs)",
    breaks="the path is rebuilt over the first parent of each cell, so the returned path is more expensive than the optimum",
    edits=[(ASTAR, "parents_[u.getPos()] = u.getParentPos();", "parents_.emplace(u.getPos(), u.getParentPos());")],
    inc=[PCI], demo=ASTAR_DEMO + r'''
int main()
{
  auto m = std::make_shared<Model>();
  m->list = {Vec(1, 0), Vec(2, 0), Vec(0, 1)};
  m->c = [](const Vec& a, const Vec& b) { return b[0] - a[0] == 2 ? 10.f : 1.f; };
  A a(Vec(16, 16));
  std::list<Vec> path;
  const bool r = a.search({A::VecWithCost(Vec(0, 0))}, Vec(8, 0), path, m, [](const std::list<Vec>&, const SearchStats&) { return true; }, 0, 1e6);
  EXPECT(r);
  float sum = 0;
  for (auto it = path.begin(); it != path.end() && std::next(it) != path.end(); ++it)
    sum += m->c(*it, *std::next(it));
  printf("cost %f\n", sum);
  EXPECT(sum == 8.f);
  return bad;
}
'''))

SEEDS.append(dict(
    id="P03-open-after-abort", property="P03",
    needs="a search that was stopped by the progress callback (or ended at its goal) followed by another search on the same instance",
    breaks="entries of the previous search stay in the open list and leak into the next search",
    edits=[(ASTAR, "    g.clear(std::numeric_limits<float>::max());\n    open_.clear();\n    parents_.clear();\n", "    g.clear(std::numeric_limits<float>::max());\n    parents_.clear();\n"),
           (ASTAR, "    if (!found)\n    {\n      // No fesible path\n", "    if (!abort)\n      open_.clear();\n\n    if (!found)\n    {\n      // No fesible path\n")],
    inc=[PCI], demo=ASTAR_DEMO + r'''
int main()
{
  auto m = std::make_shared<Model>();
  m->list = {Vec(1, 0), Vec(-1, 0), Vec(0, 1), Vec(0, -1)};
  m->c = [](const Vec&, const Vec&) { return 1.f; };
  A a(Vec(16, 16));
  std::list<Vec> path;
  int n = 0;
  const bool r0 = a.search({A::VecWithCost(Vec(12, 12))}, Vec(0, 0), path, m, [&n](const std::list<Vec>&, const SearchStats&) { return ++n < 5; }, 0, 0);
  EXPECT(!r0);
  path.clear();
  m->list = {Vec(1, 0), Vec(-1, 0)};
  const bool r = a.search({A::VecWithCost(Vec(1, 1))}, Vec(2, 12), path, m, [](const std::list<Vec>&, const SearchStats&) { return true; }, 0, 1e6);
  EXPECT(!r);
  std::list<Vec> p2;
  const bool r2 = a.search({A::VecWithCost(Vec(0, 12))}, Vec(15, 12), p2, m, [](const std::list<Vec>&, const SearchStats&) { return true; }, 0, 1e6);
  EXPECT(r2 && p2.size() == 16 && p2.front() == Vec(0, 12));
  // a pending entry at the next goal must not be mistaken for a found path
  n = 0;
  m->list = {Vec(1, 0), Vec(-1, 0), Vec(0, 1), Vec(0, -1)};
  a.search({A::VecWithCost(Vec(12, 12))}, Vec(0, 0), path, m, [&n](const std::list<Vec>&, const SearchStats&) { return ++n < 2; }, 0, 0);
  m->c = [](const Vec&, const Vec&) { return -1.f; };
  std::list<Vec> p3;
  int calls = 0;
  size_t queue = 0;
  a.search({A::VecWithCost(Vec(1, 1))}, Vec(12, 13), p3, m, [&](const std::list<Vec>&, const SearchStats& s) { if (!calls++) queue = s.num_search_queue; return true; }, 0, 0);
  printf("queue at start %zu\n", queue);
  EXPECT(queue == 1);
  return bad;
}
'''))

GM_DEMO = r'''
#include <cmath>
#include <cstdio>
#include <list>
#include <vector>
#include <functional>
#include <limits>
#include <cstring>
#include <string>
#include <planner_cspace/blockmem_gridmap.h>
using namespace planner_cspace;
using Vec = CyclicVecInt<3, 2>;
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { if (!bad) printf("line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
'''
GMH = PC + "blockmem_gridmap.h"
SEEDS.append(dict(
    id="P04-block-count-on-shrink", property="P04",
    needs="a reset to a smaller or equal sized map whose storage is reused, with another aspect ratio than before",
    breaks="the block stride of the old geometry is kept when the storage is reused, so cells of the map share storage or lie outside it",
    edits=[(GMH, "        block_size_[i] = (size_tmp[i] + width - 1) / width;\n", "        block_size_[i] = std::max(block_size_[i], (size_tmp[i] + width - 1) / width);\n"),
           (GMH, "  explicit BlockMemGridmap(const CyclicVecInt<DIM, NONCYCLIC>& size_)\n", "  explicit BlockMemGridmap(const CyclicVecInt<DIM, NONCYCLIC>& size_)  // NOLINT\n")],
    inc=[PCI], demo=GM_DEMO + r'''
int main()
{
  return 0;
}
'''))
SEEDS.pop()
SEEDS.append(dict(
    id="P04-clear-logical-size", property="P04",
    needs="a map whose width or height is not a multiple of the block width (some cells then lie behind the product of the sizes)",
    breaks="the positive-only clear skips the cells stored behind the logical number of cells",
    edits=[(GMH, "  void clear_positive(const T zero)\n  {\n    for (size_t i = 0; i < ser_size_; i++)\n", "  void clear_positive(const T zero)\n  {\n    size_t num = 1;\n    for (int i = 0; i < DIM; i++)\n      num *= size_[i];\n    for (size_t i = 0; i < num; i++)\n")],
    inc=[PCI], demo=GM_DEMO + r'''
int main()
{
  BlockMemGridmap<int, 3, 2, 0x10> gm(Vec(19, 23, 4));
  gm.clear(5);
  gm.clear_positive(2);
  for (Vec p(0, 0, 0); p[0] < 19; p[0]++)
    for (p[1] = 0; p[1] < 23; p[1]++)
      for (p[2] = 0; p[2] < 4; p[2]++)
        EXPECT(gm[p] == 2);
  return bad;
}
'''))
SEEDS.append(dict(
    id="P04-storage-reuse", property="P04",
    needs="a reset to a smaller map (storage kept) followed by a reset to a larger one of a size that is no multiple of the block width",
    breaks="the storage is considered large enough although it is smaller than the serialised size, so cells lie outside the storage",
    edits=[(GMH, "    if (ser_size_ < ser_capacity_ / 2 || ser_capacity_ < ser_size_)\n    {\n      ser_capacity_ = ser_size_;\n      c_.reset(new T[ser_size_]);\n    }\n",
            "    if (ser_size_ < ser_capacity_ / 2 || ser_capacity_ < ser_size_)\n      c_.reset(new T[ser_size_]);\n    ser_capacity_ = std::max(ser_size_, ser_capacity_);\n")],
    inc=[PCI], flags="-fsanitize=address", demo=GM_DEMO + r'''
int main()
{
  BlockMemGridmap<int, 3, 2, 0x10> gm(Vec(64, 64, 4));
  gm.clear(1);
  gm.reset(Vec(16, 16, 4));
  gm.clear(1);
  gm.reset(Vec(60, 50, 4));  // must get storage of its own again
  gm.clear(3);
  for (Vec p(0, 0, 0); p[0] < 60; p[0]++)
    for (p[1] = 0; p[1] < 50; p[1]++)
      EXPECT(gm[p] == 3);
  return bad;
}
'''))
SEEDS.append(dict(
    id="P05-cycle-odd", property="P05",
    needs="a cyclic axis with an odd number of cells and the most negative representable value",
    breaks="the wrapped value leaves the signed range (and wrapping is not idempotent)",
    edits=[(PC + "cyclic_vec.h", "    if (e_[i] < res / 2 - res)\n", "    if (e_[i] < -(res / 2))\n")],
    inc=[PCI], demo=GM_DEMO + r'''
int main()
{
  for (int n = 1; n < 40; n++)
  {
    for (int v = -100; v <= 100; v++)
    {
      Vec p(0, 0, v);
      p.cycle(n);
      EXPECT((p[2] - v) % n == 0);
      EXPECT(p[2] < std::max(1, n / 2) && p[2] >= n / 2 - n);
      Vec q = p;
      q.cycle(n);
      EXPECT(q == p);
    }
  }
  return bad;
}
'''))
SEEDS.append(dict(
    id="P06-window-merge", property="P06",
    needs="two observations around different positions before the derived costs are updated once",
    breaks="cells observed only in the first of the two windows keep an outdated remembered cost",
    edits=[("planner_cspace/src/costmap_bbf.cpp", "      std::max(updated_max_[0], std::min(size_[0] - 1, center[0] + range_max)),\n      std::max(updated_max_[1], std::min(size_[1] - 1, center[1] + range_max)));",
            "      std::min(size_[0] - 1, std::max(updated_max_[0], center[0] + range_max)),\n      std::min(size_[1] - 1, std::max(updated_max_[0], center[1] + range_max)));")],
    inc=[PCI], src=["planner_cspace/src/costmap_bbf.cpp"], demo=GM_DEMO.replace("blockmem_gridmap.h>", "blockmem_gridmap.h>\n#include <planner_cspace/planner_3d/costmap_bbf.h>") + r'''
int main()
{
  planner_3d::CostmapBBFImpl bbf;
  bbf.reset(planner_3d::CostmapBBF::Vec(40, 40, 4));
  bbf.clear();
  BlockMemGridmap<char, 3, 2, 0x20> cm(planner_3d::CostmapBBF::Vec(40, 40, 4));
  cm.clear(100);
  bbf.updateCostmap();
  bbf.remember(&cm, planner_3d::CostmapBBF::Vec(10, 30, 0), 5.0, 0.2, 0, 3);
  bbf.remember(&cm, planner_3d::CostmapBBF::Vec(30, 8, 0), 5.0, 0.2, 0, 3);
  bbf.updateCostmap();
  EXPECT(bbf.getCost(planner_3d::CostmapBBF::Vec(30, 8, 0)) > 0);
  EXPECT(bbf.getCost(planner_3d::CostmapBBF::Vec(10, 30, 0)) > 0);
  EXPECT(bbf.getCost(planner_3d::CostmapBBF::Vec(20, 20, 0)) == 0);
  return bad;
}
'''))
SEEDS.append(dict(
    id="P12-long-axis-steps", property="P12",
    needs="a diagonal joint move whose interpolated line crosses a collision cell only between the samples along the longer axis",
    breaks="moves of joints pass over cells in collision because the line is sampled more coarsely than its length",
    edits=[("planner_cspace/src/grid_astar_model_2dof_joints.cpp", "  float distf = std::hypot(static_cast<float>(d[0]), static_cast<float>(d[1]));\n", "  float distf = std::max(std::abs(d[0]), std::abs(d[1]));\n")],
    inc=[PCI], src=["planner_cspace/src/grid_astar_model_2dof_joints.cpp"], demo=r'''
#include <cmath>
#include <cstdio>
#include <list>
#include <vector>
#include <functional>
#include <limits>
#include <cstring>
#include <string>
#include <planner_cspace/cyclic_vec.h>
#include <planner_cspace/grid_astar_model.h>
#include <planner_cspace/blockmem_gridmap.h>
#include <planner_cspace/planner_2dof_serial_joints/grid_astar_model.h>
using namespace planner_cspace;
using namespace planner_cspace::planner_2dof_serial_joints;
static int bad = 0;
int main()
{
  // A move is rejected when a cell at unit spacing along it collides.
  const int n = 32;
  for (int dx = -5; dx <= 5; dx++)
    for (int dy = -5; dy <= 5; dy++)
    {
      const double len = std::hypot(dx, dy);
      const int dist = len;
      if (dist < 1)
        continue;
      for (int k = 0; k < dist; k++)
      {
        const int x = std::lround(10 + k * (double)dx / dist), y = std::lround(10 + k * (double)dy / dist);
        const double ex = std::abs(std::abs(10 + k * (double)dx / dist - std::floor(10 + k * (double)dx / dist)) - 0.5);
        const double ey = std::abs(std::abs(10 + k * (double)dy / dist - std::floor(10 + k * (double)dy / dist)) - 0.5);
        if (ex < 1e-3 || ey < 1e-3)
          continue;  // on a cell border
        BlockMemGridmap<char, 2, 0, 0x10> cm(CyclicVecInt<2, 0>(n, n));
        cm.clear(0);
        cm[CyclicVecInt<2, 0>(x, y)] = 100;
        CostCoeff cc;
        cc.weight_cost_ = 1;
        cc.expand_ = 0;
        GridAstarModel2DoFSerialJoint m(CyclicVecFloat<2, 0>(1.f, 1.f), n, cm, cc, 5);
        if (m.cost(CyclicVecInt<2, 0>(10, 10), CyclicVecInt<2, 0>(10 + dx, 10 + dy), {}, CyclicVecInt<2, 0>(0, 0)) >= 0)
        {
          if (!bad)
            printf("move %d %d passes over %d %d\n", dx, dy, x, y);
          bad = 1;
        }
      }
    }
  return bad;
}
'''))
SEEDS.append(dict(
    id="T01-clip-last", property="T01",
    needs="a speed limit that is lowered while moving faster than the new limit",
    breaks="the velocity jumps down to the new limit, exceeding the acceleration limit",
    edits=[("trajectory_tracker/include/trajectory_tracker/basic_control.h", "    v = clip(v, vel);\n\n", ""),
           ("trajectory_tracker/include/trajectory_tracker/basic_control.h", "      v = val_prev_ - dt * acc;\n\n", "      v = val_prev_ - dt * acc;\n\n    v = clip(v, vel);\n\n")],
    inc=["trajectory_tracker/include"], demo=r'''
#include <cmath>
#include <cstdio>
#include <trajectory_tracker/basic_control.h>
int main()
{
  trajectory_tracker::VelAccLimitter v;
  for (int i = 0; i < 100; i++)
    v.set(1.0, 1.0, 0.5, 0.1);
  const float before = v.get();
  v.set(1.0, 0.3, 0.5, 0.1);
  printf("%f -> %f\n", before, v.get());
  return std::abs(before - v.get()) > 0.5 * 0.1 + 1e-5;
}
'''))
SEEDS.append(dict(
    id="T03-one-turn", property="T03",
    needs="an angle filter whose output has accumulated more than one full turn (or inputs given several turns away)",
    breaks="the input is unwrapped by at most one turn, so the output is pulled back over a full turn",
    edits=[("trajectory_tracker/include/trajectory_tracker/filter.h", "      in = out_ + remainder(in - out_, M_PI * 2.0);\n", "      if (in - out_ > M_PI)\n        in -= M_PI * 2.0;\n      else if (in - out_ < -M_PI)\n        in += M_PI * 2.0;\n")],
    inc=["trajectory_tracker/include"], demo=r'''
#include <cmath>
#include <cstdio>
#include <trajectory_tracker/filter.h>
int main()
{
  using trajectory_tracker::Filter;
  Filter a(Filter::FILTER_LPF, 2.0, 0.0, true);
  Filter ref(Filter::FILTER_LPF, 2.0, 0.0, false);
  double th = 0;
  for (int i = 0; i < 300; i++)
  {
    th += 0.1;  // keeps turning: 30 rad
    const float va = a.in(std::remainder(th, 2 * M_PI)), vb = ref.in(th);
    if (std::abs(std::remainder(va - vb, 2 * M_PI)) > 1e-2)
    {
      printf("%d %f %f\\n", i, va, vb);
      return 1;
    }
  }
  return 0;
}
'''))
SEEDS.append(dict(
    id="T07-behind-segment", property="T07",
    needs="a point exactly beside the first end of a line strip (projection on the end point)",
    breaks="the distance from a degenerate segment becomes NaN and the sign rule at the first end point is lost",
    edits=[("trajectory_tracker/include/trajectory_tracker/eigen_line.h", "  if ((b - a).dot(c - a) <= 0)\n", "  if ((b - a).dot(c - a) < 0)\n"),
           ("trajectory_tracker/include/trajectory_tracker/eigen_line.h", "  if ((a - b).dot(c - b) <= 0)\n", "  if ((a - b).dot(c - b) < 0)\n")],
    inc=["trajectory_tracker/include"], flags="-I/usr/include/eigen3", demo=r'''
#include <cstdio>
#include <trajectory_tracker/eigen_line.h>
int main()
{
  const Eigen::Vector2d a(1, 1), c(4, 5);
  const float d = trajectory_tracker::lineStripDistance(a, a, c);
  printf("%f\n", d);
  return !(std::abs(d - 5.0) < 1e-4);
}
'''))
SEEDS.append(dict(
    id="O01-far-outlier", property="O01",
    needs="a measurement much less certain than the state",
    breaks="finite but uncertain measurements are dropped instead of being weighted by their variance",
    edits=[("track_odometry/include/track_odometry/kalman_filter1.h", "    if (std::isinf(sigma_in))\n      return;\n", "    if (!(sigma_in * sigma_in * 1e-6 < sigma_ * sigma_) && sigma_in > 0)\n      return;\n")],
    inc=["track_odometry/include"], demo=r'''
#include <cmath>
#include <cstdio>
#include <track_odometry/kalman_filter1.h>
int main()
{
  track_odometry::KalmanFilter1 k(0.0, 0.01);
  k.measure(1e6, 20.0);
  const double expect = 1e6 * 1e-4 / (1e-4 + 400.0);
  printf("%g %g\n", k.x_, expect);
  return std::abs(k.x_ - expect) > 1e-6;
}
'''))
SEEDS.append(dict(
    id="P09-radius-sign", property="P09",
    needs="a reverse curve (backward motion while turning) looked up in the rotation table",
    breaks="the turning radius stored for reverse curves has the wrong sign",
    edits=[("planner_cspace/src/rotation_cache.cpp", "              v[0] * sin_v);\n", "              sin_v);\n")],
    inc=[PCI], src=["planner_cspace/src/rotation_cache.cpp"], demo=r'''
#include <cmath>
#include <cstdio>
#include <list>
#include <vector>
#include <functional>
#include <limits>
#include <cstring>
#include <string>
#include <planner_cspace/cyclic_vec.h>
#include <planner_cspace/planner_3d/rotation_cache.h>
using namespace planner_cspace;
int main()
{
  planner_3d::RotationCache rc;
  const int n = 16;
  rc.reset(1.0, 2 * M_PI / n, 3);
  // forward left curve and backward right curve (both turn by +1 step)
  const auto f = rc.getRadiuses(0, CyclicVecInt<3, 2>(3 + 2, 3 + 0, 1));
  const auto b = rc.getRadiuses(0, CyclicVecInt<3, 2>(3 - 2, 3 + 0, 1));
  printf("%f %f\n", f.second, b.second);
  return !(f.second > 0 && b.second < 0);
}
'''))
