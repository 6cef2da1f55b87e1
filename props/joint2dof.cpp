// P12: two-joint serial arm model.
#include <cassert>
#include <cmath>
#include <cstring>
#include <functional>
#include <set>

#include <omp.h>

#include <planner_cspace/grid_astar.h>
#include <planner_cspace/planner_2dof_serial_joints/grid_astar_model.h>

#include "pbt.h"

namespace pc = planner_cspace;
namespace pj = planner_cspace::planner_2dof_serial_joints;
using Model = pj::GridAstarModel2DoFSerialJoint;
using Vec = Model::Vec;
using Vecf = Model::Vecf;
using As = pc::GridAstar<2, 0>;

struct World
{
  int res;
  As::Gridmap<char, 0x40> cm;
  std::vector<int> ref;  // one period
  Vecf coef;
  pj::CostCoeff cc;
  int range;
  int at(int a, int b) const
  {
    a = ((a % res) + res) % res;
    b = ((b % res) + res) % res;
    return ref[a * res + b];
  }
  std::string show() const
  {
    std::ostringstream o;
    int l = 0;
    for (int v : ref)
      l += v == 100;
    o << "resolution " << res << " range " << range << " coef (" << coef[0] << "," << coef[1] << ") weight " << cc.weight_cost_ << " colliding cells " << l;
    return o.str();
  }
};
static void gen(pbt::Src& s, World& w)
{
  w.res = s.irange(2, s.pick({6, 16, 40}));
  w.range = s.irange(1, std::min(6, std::max(1, w.res / 2)));
  w.ref.assign(w.res * w.res, 0);
  const int mode = s.weighted({2, 3, 3});
  const int dens = s.pick({5, 15, 35});
  pbt::Rng r(s.bits());
  for (auto& v : w.ref)
  {
    if (mode == 0)
      v = 0;
    else
      v = static_cast<int>(r.next() % 100) < dens ? 100 : mode == 2 ? static_cast<int>(r.next() % 100) : 0;
  }
  for (int k = s.irange(0, 3); k > 0; --k)
  {
    const int a = s.irange(0, w.res - 1), b = s.irange(0, w.res - 1);
    const int la = s.irange(1, std::max(1, w.res / 2)), lb = s.irange(1, 2);
    for (int i = 0; i < la; ++i)
      for (int j = 0; j < lb; ++j)
        w.ref[((a + i) % w.res) * w.res + (b + j) % w.res] = 100;
  }
  w.cm.reset(Vec(w.res * 2, w.res * 2));
  for (int i = 0; i < 2 * w.res; ++i)
    for (int j = 0; j < 2 * w.res; ++j)
      w.cm[Vec(i, j)] = w.at(i, j);
  w.coef = Vecf(static_cast<float>(s.pick({1.0, 0.3, 2.5})), static_cast<float>(s.pick({1.0, 0.3, 2.5})));
  w.cc.weight_cost_ = s.pick({4.0f, 0.0f, 20.0f});
  w.cc.expand_ = 0.1f;
}
static int wrapDiff(int d, int n)
{
  d = ((d % n) + n) % n;
  if (d >= n - n / 2)
    d -= n;
  // signed range [-(n - n/2), n/2)
  if (d >= n / 2)
    d -= n;
  return d;
}

struct Sweep
{
  bool must_reject = false, may_reject = false;
  double lo = 0, hi = 0;
};
// Cells at unit spacing along the shortest segment, from the start (included) to the end (excluded).
static Sweep sweep(const World& w, const Vec& a, const Vec& d)
{
  Sweep r;
  const int n = static_cast<int>(std::floor(std::hypot(d[0], d[1]) + 1e-6));
  for (int i = 0; i < n; ++i)
  {
    std::vector<int> x[2];
    for (int k = 0; k < 2; ++k)
    {
      const double v = a[k] + static_cast<double>(d[k]) * i / n;
      x[k] = {static_cast<int>(std::lround(v - 1e-4))};
      const int o = static_cast<int>(std::lround(v + 1e-4));
      if (o != x[k][0])
        x[k].push_back(o);
    }
    int mn = 1000, mx = 0;
    for (int p : x[0])
      for (int q : x[1])
      {
        mn = std::min(mn, w.at(p, q));
        mx = std::max(mx, w.at(p, q));
      }
    r.must_reject = r.must_reject || mn > 99;
    r.may_reject = r.may_reject || mx > 99;
    r.lo += mn;
    r.hi += mx;
  }
  return r;
}

PBT_FACET(joint_cost, 3, "random joint maps, cells and moves against an exact sweep of the wrapped segment; non-trivial: move of at least two cells on a map with obstacles or costs")
{
  pbt::Src& s = c.src;
  World w;
  gen(s, w);
  Model m(w.coef, w.res, w.cm, w.cc, w.range);
  const int N = 2 * w.res;
  // the offered moves: every displacement within the range once
  const auto& sl = m.searchGrids(Vec(0, 0), {}, Vec(0, 0));
  std::set<std::pair<int, int>> seen;
  for (const Vec& v : sl)
  {
    PBT_CHECK(std::abs(v[0]) <= w.range && std::abs(v[1]) <= w.range, "range", "offered move outside the range");
    PBT_CHECK(seen.insert({v[0], v[1]}).second, "duplicate", "move offered twice");
  }
  for (int i = -w.range; i <= w.range; ++i)
    for (int j = -w.range; j <= w.range; ++j)
      PBT_CHECK((i == 0 && j == 0) || seen.count({i, j}), "missing", "move (" << i << "," << j << ") is not offered");
  c.describe([&](std::ostream& o) { o << w.show(); });
  for (int k = 0; k < 12; ++k)
  {
    const Vec a(s.irange(0, N - 1), s.irange(0, N - 1));
    Vec b;
    if (s.chance(1, 5))
      b = Vec(s.irange(-2, N + 1), s.irange(-2, N + 1));
    else
    {
      b = a + sl[s.draw(sl.size() - 1)];
      if (s.chance(3, 4))
        b.cycleUnsigned(N, N);
    }
    const float cost = m.cost(a, b, {}, Vec(0, 0));
    c.describe([&](std::ostream& o) { o << "; (" << a[0] << "," << a[1] << ")->(" << b[0] << "," << b[1] << "): " << cost; });
    if (b[0] < 0 || b[0] >= N || b[1] < 0 || b[1] >= N)
    {
      PBT_CHECK(cost < 0, "outside", "move to (" << b[0] << "," << b[1] << ") outside " << N << " accepted");
      continue;
    }
    Vec d;
    for (int i = 0; i < 2; ++i)
      d[i] = wrapDiff(b[i] - a[i], w.res);
    const Sweep r = sweep(w, a, d);
    if (r.must_reject)
      PBT_CHECK(cost < 0, "collision-accepted", "move (" << a[0] << "," << a[1] << ")->(" << b[0] << "," << b[1] << ") sweeps a collision but costs " << cost << "; " << w.show());
    else if (!r.may_reject)
    {
      const double e = std::abs(w.coef[0] * d[0]) + std::abs(w.coef[1] * d[1]);
      PBT_CHECK(cost >= 0, "free-rejected", "move (" << a[0] << "," << a[1] << ")->(" << b[0] << "," << b[1] << ") is free but rejected; " << w.show());
      PBT_CHECK(cost >= e + r.lo * w.cc.weight_cost_ / 100 - 1e-3 && cost <= e + r.hi * w.cc.weight_cost_ / 100 + 1e-3, "cost-value",
                "move (" << a[0] << "," << a[1] << ")->(" << b[0] << "," << b[1] << ") costs " << cost << " expected " << e + r.lo * w.cc.weight_cost_ / 100 << "; " << w.show());
    }
    // the model does not depend on which period of the joint circle is used
    Vec a2((a[0] + w.res) % N, a[1]), b2((b[0] + w.res) % N, b[1]);
    const float c2 = m.cost(a2, b2, {}, Vec(0, 0));
    if (r.must_reject == r.may_reject)
      PBT_CHECK((c2 < 0) == (cost < 0) && (cost < 0 || r.lo != r.hi || std::abs(c2 - cost) < 1e-3), "period", "cost " << cost << " becomes " << c2 << " one full turn away; " << w.show());
    // estimate: weighted joint distance
    const float h = m.costEstim(a, b);
    const double eh = std::abs(w.coef[0] * (b[0] - a[0])) + std::abs(w.coef[1] * (b[1] - a[1]));
    PBT_CHECK(std::abs(h - eh) < 1e-3, "estimate", "estimate " << h << " expected " << eh);
    c.nontrivial(std::abs(d[0]) + std::abs(d[1]) >= 2 && (r.hi > 0 || r.may_reject));
  }
}

PBT_FACET(joint_plan, 2, "joint model under the grid search on the doubled grid: every leg of a returned path is collision-free when re-swept, connectivity decides success; non-trivial: path of >2 cells on a map with obstacles")
{
  pbt::Src& s = c.src;
  World w;
  do
    gen(s, w);
  while (w.res > 24 && s.chance(9, 10));
  if (w.res > 24)
    throw pbt::Discard();
  omp_set_num_threads(1);
  std::shared_ptr<Model> m(new Model(w.coef, w.res, w.cm, w.cc, w.range));
  const int N = 2 * w.res;
  As as;
  as.reset(Vec(N, N));
  as.setSearchTaskNum(s.pick({1, 1, 4}));
  const Vec st(s.irange(0, N - 1), s.irange(0, N - 1)), go(s.irange(0, N - 1), s.irange(0, N - 1));
  std::list<Vec> path;
  std::vector<As::VecWithCost> sts;
  sts.emplace_back(st);
  const bool ok = as.search(sts, go, path, m, [](const std::list<Vec>&, const pc::SearchStats&) { return true; }, 0, 1e9, false);
  c.describe([&](std::ostream& o) { o << w.show() << " (" << st[0] << "," << st[1] << ")->(" << go[0] << "," << go[1] << ") found " << ok << " cells " << path.size(); });
  // reachability with the exact sweep; ambiguous moves are tried both ways
  auto reach = [&](bool generous) {
    std::vector<uint8_t> seen(N * N, 0);
    std::vector<Vec> q = {st};
    seen[st[0] * N + st[1]] = 1;
    while (!q.empty())
    {
      const Vec a = q.back();
      q.pop_back();
      for (int i = -w.range; i <= w.range; ++i)
        for (int j = -w.range; j <= w.range; ++j)
        {
          Vec b(a[0] + i, a[1] + j);
          b.cycleUnsigned(N, N);
          if (seen[b[0] * N + b[1]])
            continue;
          Vec d;
          for (int k = 0; k < 2; ++k)
            d[k] = wrapDiff(b[k] - a[k], w.res);
          const Sweep r = sweep(w, a, d);
          if (generous ? r.must_reject : r.may_reject)
            continue;
          seen[b[0] * N + b[1]] = 1;
          q.push_back(b);
        }
    }
    return seen[go[0] * N + go[1]] != 0;
  };
  if (st == go)
  {
    PBT_CHECK(!ok, "start-is-goal", "search from the goal succeeded");
    return;
  }
  if (ok)
  {
    PBT_CHECK(path.front() == st && path.back() == go, "ends", "path does not join start and goal");
    auto it = path.begin();
    Vec prev = *it++;
    for (; it != path.end(); ++it)
    {
      Vec d;
      for (int k = 0; k < 2; ++k)
        d[k] = wrapDiff((*it)[k] - prev[k], w.res);
      PBT_CHECK(!sweep(w, prev, d).must_reject, "leg-collides", "leg (" << prev[0] << "," << prev[1] << ")->(" << (*it)[0] << "," << (*it)[1] << ") collides; " << w.show());
      prev = *it;
    }
    PBT_CHECK(reach(true), "found-impossible", "path through obstacles; " << w.show());
    c.nontrivial(path.size() > 2);
  }
  else
  {
    PBT_CHECK(!reach(false), "not-found", "reachable goal not found; " << w.show());
    c.label("unreachable");
  }
}
