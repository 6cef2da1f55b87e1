// P06: remembered costmap against a reference odds grid.
#include <cassert>
#include <cmath>
#include <cstring>
#include <functional>

#include <planner_cspace/planner_3d/costmap_bbf.h>

#include "pbt.h"

namespace pc = planner_cspace;
using Vec = pc::CyclicVecInt<3, 2>;

static std::string v2(const Vec& v)
{
  std::ostringstream o;
  o << "(" << v[0] << "," << v[1] << ")";
  return o.str();
}

PBT_FACET(bbf_history, 1, "random sequences of remember/updateCostmap/clear/reset with generated costmaps, odds, ranges and centers (also outside the map); non-trivial: at least two remembers that touch a cell and one derived cost in 1..99")
{
  pbt::Src& s = c.src;
  pc::planner_3d::CostmapBBFImpl bbf;
  pc::planner_3d::CostmapBBFNoOp noop;
  std::ostringstream log;
  Vec size;
  std::vector<double> odds;
  std::vector<int> cost, shown;  // cost: what the current odds mean, shown: what getCost must say
  std::vector<bool> certain;     // rounding of the derived cost is unambiguous
  pc::BlockMemGridmap<char, 3, 2, 0x40> map;
  const double LO = pc::bbf::MIN_ODDS, HI = pc::bbf::MAX_ODDS;
  PBT_CHECK(std::abs(LO - 0.1 / 0.9) < 1e-5 && std::abs(HI - 9.0) < 1e-3, "bounds", "odds bounds " << LO << " " << HI);
  auto idx = [&](int x, int y) { return y * size[0] + x; };
  auto doReset = [&]() {
    size = Vec(s.irange(1, 40), s.irange(1, 40), s.irange(1, 4));
    if (s.chance(1, 10))
      size[0] = s.irange(100, 140);
    bbf.reset(size);
    noop.reset(size);
    map.reset(size);
    odds.assign(size[0] * size[1], LO);
    shown.assign(size[0] * size[1], 0);
    log << "\n reset " << size[0] << "x" << size[1] << "x" << size[2];
  };
  std::vector<bool> pending;
  auto derive = [&](double o) {
    const double p = o / (1 + o);
    return (p - 0.1) / 0.8 * 100.0;
  };
  int touched = 0, mid = 0;
  bool dirty = false;  // remembered but not derived
  std::vector<double> derived;
  auto compareAll = [&]() {
    Vec p;
    for (p[1] = 0; p[1] < size[1]; ++p[1])
      for (p[0] = 0; p[0] < size[0]; ++p[0])
      {
        const double e = derived[idx(p[0], p[1])];
        p[2] = (p[0] + p[1]) % size[2];
        const int g = bbf.getCost(p);
        PBT_CHECK(g >= 0 && g <= 100, "cost-range", "cost " << g << " at " << v2(p) << log.str());
        PBT_CHECK(std::abs(g - e) <= 0.5 + 2e-3, "cost", "cost of " << v2(p) << " is " << g << " but the odds mean " << e << log.str());
        mid += g > 0 && g < 100;
      }
    bbf.forEach([&](const Vec& q, pc::bbf::BinaryBayesFilter& f) {
      const double e = odds[idx(q[0], q[1])];
      PBT_CHECK(std::abs(f.get() - e) <= 1e-4 * e, "odds", "odds of " << v2(q) << " are " << f.get() << " expected " << e << log.str());
    });
  };
  doReset();
  derived.assign(odds.size(), 0.0);
  const int steps = s.irange(1, 10);
  for (int k = 0; k < steps; ++k)
  {
    const int op = s.weighted({8, 4, 1, 1});
    if (op == 0)
    {
      // a costmap with unknown, free, intermediate and lethal cells
      const uint64_t seed = s.bits();
      pbt::Rng r(seed);
      const int mode = s.irange(0, 3);
      map.clear(0);
      for (int y = 0; y < size[1]; ++y)
        for (int x = 0; x < size[0]; ++x)
          for (int a = 0; a < size[2]; ++a)
          {
            const int q = r.next() % 8;
            int v = q == 0 ? -1 : q == 1 ? 100 : q == 2 ? 99 : q == 3 ? static_cast<int>(r.next() % 100) : 0;
            if (mode == 1)
              v = 100;
            if (mode == 2)
              v = r.next() % 2 ? 100 : 0;
            map[Vec(x, y, a)] = v;
          }
      Vec center(s.irange(-5, size[0] + 5), s.irange(-5, size[1] + 5), s.irange(0, size[2] - 1));
      if (s.chance(1, 6))
        center = Vec(s.irange(-40, 40), s.irange(-40, 40), 0);
      const int rmax = s.pick({0, 1, 3, 8, 20, 60});
      const int rmin = s.flip() ? 0 : s.irange(0, rmax + 2);
      const float hit = s.pick({1.5f, 1.01f, 3.0f, 9.0f, 30.0f}), miss = s.pick({0.9f, 0.5f, 0.99f, 0.1f, 0.01f});
      log << "\n remember center " << v2(center) << " hit " << hit << " miss " << miss << " range " << rmin << ".." << rmax << " map " << mode << "/" << seed;
      bbf.remember(&map, center, hit, miss, rmin, rmax);
      noop.remember(&map, center, hit, miss, rmin, rmax);
      bool any = false;
      for (int y = 0; y < size[1]; ++y)
        for (int x = 0; x < size[0]; ++x)
        {
          const long dx = x - center[0], dy = y - center[1];
          const long r2 = dx * dx + dy * dy;
          if (r2 > static_cast<long>(rmax) * rmax)
            continue;
          const int v = map[Vec(x, y, 0)];
          double& o = odds[idx(x, y)];
          if (v < 0)
            continue;
          if (v == 100)
          {
            if (r2 < static_cast<long>(rmin) * rmin)
              continue;
            o = static_cast<float>(o * hit);
          }
          else
            o = static_cast<float>(o * miss);
          o = std::max(LO, std::min(HI, o));
          any = true;
        }
      touched += any;
      dirty = true;
    }
    else if (op == 1)
    {
      bbf.updateCostmap();
      log << "\n updateCostmap";
      for (size_t i = 0; i < odds.size(); ++i)
        derived[i] = derive(odds[i]);
      dirty = false;
      compareAll();
    }
    else if (op == 2)
    {
      bbf.clear();
      noop.clear();
      std::fill(odds.begin(), odds.end(), LO);
      std::fill(derived.begin(), derived.end(), 0.0);
      dirty = false;
      log << "\n clear";
      compareAll();
    }
    else
    {
      doReset();
      derived.assign(odds.size(), 0.0);
      dirty = false;
    }
    PBT_CHECK(noop.getCost(Vec(0, 0, 0)) == 0, "noop", "disabled memory reports a cost");
    if (!dirty || s.chance(1, 3))
      compareAll();
  }
  bbf.updateCostmap();
  for (size_t i = 0; i < odds.size(); ++i)
    derived[i] = derive(odds[i]);
  compareAll();
  c.describe([&](std::ostream& o) { o << log.str(); });
  c.nontrivial(touched >= 2 && mid > 0);
}

PBT_FACET(bbf_filter, 1, "single filters: random update sequences against clamped products; non-trivial: an update that is not clamped")
{
  pbt::Src& s = c.src;
  const float init = static_cast<float>(s.real(0.12, 8.9));
  pc::bbf::BinaryBayesFilter f(init);
  double o = init;
  const double LO = pc::bbf::MIN_ODDS, HI = pc::bbf::MAX_ODDS;
  for (int k = s.irange(1, 12); k > 0; --k)
  {
    const float u = static_cast<float>(s.chance(1, 8) ? s.pick({0.0, 1e6, 1.0}) : std::exp(s.sym(1.5)));
    const float r = f.update(u);
    const double x = o * u;
    o = std::max(LO, std::min(HI, x));
    c.nontrivial(o == x && u != 1.0f);
    PBT_CHECK(std::abs(r - o) <= 1e-4 * o && r == f.get(), "update", "update by " << u << " gives " << r << " expected " << o);
    o = r;
    const double p = o / (1 + o);
    PBT_CHECK(std::abs(f.getProbability() - p) < 1e-5, "probability", f.getProbability() << " for odds " << o);
    PBT_CHECK(std::abs(f.getNormalizedProbability() - (p - 0.1) / 0.8) < 1e-5, "normalized", f.getNormalizedProbability() << " for odds " << o);
    PBT_CHECK(std::abs(pc::bbf::probabilityToOdds(pc::bbf::oddsToProbability(o)) - o) < 1e-3 * o, "roundtrip", "odds " << o);
  }
  c.describe([&](std::ostream& o2) { o2 << "initial odds " << init << " final " << o; });
}
