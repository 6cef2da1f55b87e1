// P01, P02, P03: grid search against an explicit graph and a Dijkstra reference.
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <list>
#include <memory>
#include <queue>
#include <set>

#include <omp.h>

#include <planner_cspace/grid_astar.h>

#include "pbt.h"

namespace pc = planner_cspace;
static constexpr float FMAX = std::numeric_limits<float>::max();

template <int DIM, int NC>
struct World
{
  using Astar = pc::GridAstar<DIM, NC>;
  using Vec = typename Astar::Vec;
  using VWC = typename Astar::VecWithCost;

  Vec size;
  int n = 1;
  std::vector<uint8_t> blocked;
  std::vector<float> weight;
  int nsets = 1;
  std::vector<std::vector<Vec>> moves;  // one list per move set
  float base = 1.0, lenw = 1.0;
  int noise_mod = 1;
  uint64_t noise_seed = 0;
  bool use_flt_max = false;
  int reject_mod = 0;
  std::vector<float> h;  // estimate, per cell
  Vec goal;

  int idx(const Vec& v) const
  {
    int a = 0;
    for (int i = 0; i < DIM; ++i)
      a = a * size[i] + v[i];
    return a;
  }
  Vec cell(int a) const
  {
    Vec v;
    for (int i = DIM - 1; i >= 0; --i)
    {
      v[i] = a % size[i];
      a /= size[i];
    }
    return v;
  }
  // Independent wrapping and range test; false when outside.
  bool wrap(Vec& v) const
  {
    for (int i = 0; i < DIM; ++i)
    {
      if (i < NC)
      {
        if (v[i] < 0 || v[i] >= size[i])
          return false;
      }
      else
      {
        v[i] = ((v[i] % size[i]) + size[i]) % size[i];
      }
    }
    return true;
  }
  int setOf(const Vec& v) const
  {
    return nsets == 1 ? 0 : ((v[DIM - 1] % nsets) + nsets) % nsets;
  }
  float edge(const Vec& a, const Vec& b) const
  {
    const int ib = idx(b), ia = idx(a);
    if (blocked[ib])
      return use_flt_max ? FMAX : -1;
    const uint64_t hsh = pbt::mix(noise_seed, static_cast<uint64_t>(ia) * 1000003ull + ib);
    if (reject_mod && hsh % reject_mod == 0)
      return -1;
    float len = 0;
    for (int i = 0; i < DIM; ++i)
    {
      int d = std::abs(b[i] - a[i]);
      if (i >= NC)
        d = std::min(d, size[i] - d);
      len += d;
    }
    return base + lenw * len + weight[ib] + 0.25f * ((hsh >> 20) % noise_mod);
  }
};

template <int DIM, int NC>
class Model : public pc::GridAstarModelBase<DIM, NC>
{
public:
  using W = World<DIM, NC>;
  using Vec = typename W::Vec;
  using VWC = typename W::VWC;
  const W& w;
  explicit Model(const W& w_) : w(w_) {}
  float cost(const Vec& cur, const Vec& next, const std::vector<VWC>&, const Vec&) const override
  {
    return w.edge(cur, next);
  }
  float costEstim(const Vec& cur, const Vec&) const override { return w.h[w.idx(cur)]; }
  const std::vector<Vec>& searchGrids(const Vec& cur, const std::vector<VWC>&, const Vec&) const override
  {
    return w.moves[w.setOf(cur)];
  }
};

template <int DIM, int NC>
struct Case
{
  using W = World<DIM, NC>;
  using Vec = typename W::Vec;
  using VWC = typename W::VWC;
  W w;
  std::vector<VWC> starts;
  Vec goal;  // as passed (may be unnormalised on cyclic axes)
  float leave = 0;
  int tasks = 1, threads = 1;
  bool ret_best = false;
  size_t limit = 0;
  float interval = 1e6;
  int abort_at = -1;
  int hmode = 0;
  bool default_tasks = false;
};

// Reference distances; cells whose estimate says "skip" cannot be entered.
template <int DIM, int NC>
std::vector<double> dijkstra(const World<DIM, NC>& w, const std::vector<std::pair<int, double>>& src, bool backward)
{
  using Vec = typename World<DIM, NC>::Vec;
  std::vector<double> d(w.n, INFINITY);
  std::vector<std::vector<std::pair<int, float>>> rev;
  if (backward)
  {
    rev.resize(w.n);
    for (int a = 0; a < w.n; ++a)
    {
      const Vec v = w.cell(a);
      for (const Vec& m : w.moves[w.setOf(v)])
      {
        Vec t = v + m;
        if (!w.wrap(t))
          continue;
        const float c = w.edge(v, t);
        if (c < 0 || c == FMAX)
          continue;
        rev[w.idx(t)].push_back({a, c});
      }
    }
  }
  std::priority_queue<std::pair<double, int>> q;
  for (auto& s : src)
    if (s.second < d[s.first])
    {
      d[s.first] = s.second;
      q.push({-s.second, s.first});
    }
  while (!q.empty())
  {
    auto [nd, a] = q.top();
    q.pop();
    if (-nd > d[a])
      continue;
    auto relax = [&](int b, float c) {
      if (d[a] + c < d[b])
      {
        d[b] = d[a] + c;
        q.push({-d[b], b});
      }
    };
    if (backward)
    {
      for (auto& e : rev[a])
        relax(e.first, e.second);
    }
    else
    {
      const Vec v = w.cell(a);
      for (const Vec& m : w.moves[w.setOf(v)])
      {
        Vec t = v + m;
        if (!w.wrap(t))
          continue;
        const int b = w.idx(t);
        if (w.h[b] < 0 || w.h[b] == FMAX)
          continue;
        const float c = w.edge(v, t);
        if (c < 0 || c == FMAX)
          continue;
        relax(b, c);
      }
    }
  }
  return d;
}

template <int DIM, int NC>
World<DIM, NC> genWorld(pbt::Src& s)
{
  World<DIM, NC> w;
  using Vec = typename World<DIM, NC>::Vec;
  const int shape = s.weighted({8, 2, 1});
  for (int i = 0; i < DIM; ++i)
  {
    int m = i < NC ? (DIM == 3 ? 9 : 14) : (DIM == 3 ? 8 : 14);
    if (shape == 1 && i == 0)
      w.size[i] = s.irange(30, 70);
    else if (shape == 1)
      w.size[i] = s.irange(1, 4);
    else if (shape == 2 && i < 2)
      w.size[i] = s.irange(28, 36);
    else if (shape == 2)
      w.size[i] = s.irange(1, 2);
    else
      w.size[i] = s.irange(1, m);
    w.n *= w.size[i];
  }
  w.blocked.resize(w.n);
  w.weight.resize(w.n);
  const int dens = s.weighted({2, 3, 3, 2}) * 15;
  const uint64_t ms = s.bits();
  const int wmode = s.irange(0, 2);
  pbt::Rng r(ms);
  for (int i = 0; i < w.n; ++i)
  {
    w.blocked[i] = static_cast<int>(r.next() % 100) < dens;
    w.weight[i] = wmode == 0 ? 0 : wmode == 1 ? static_cast<float>(r.next() % 5) : static_cast<float>(r.next() % 1000) / 100.0f;
  }
  // a wall on axis 0 with an optional gap makes detours and unreachable goals
  if (s.chance(1, 3) && w.size[0] > 2)
  {
    const int x = s.irange(1, w.size[0] - 2);
    const int gap = s.irange(0, w.n);
    for (int i = 0; i < w.n; ++i)
      if (w.cell(i)[0] == x && i % std::max(1, w.n) != gap)
        w.blocked[i] = 1;
  }
  w.nsets = s.weighted({3, 1}) ? s.irange(2, 3) : 1;
  w.moves.resize(w.nsets);
  const int rad = s.weighted({4, 2, 1}) + 1;
  for (auto& ml : w.moves)
  {
    const int nm = s.irange(1, 10);
    std::set<std::vector<int>> seen;
    for (int k = 0; k < nm; ++k)
    {
      Vec m;
      std::vector<int> key;
      bool zero = true;
      for (int i = 0; i < DIM; ++i)
      {
        m[i] = s.irange(-rad, rad);
        zero = zero && m[i] == 0;
        key.push_back(m[i]);
      }
      if (zero || !seen.insert(key).second)
        continue;
      ml.push_back(m);
    }
    // full neighbourhood makes most maps connected
    if (s.flip() || ml.empty())
    {
      for (int i = 0; i < DIM; ++i)
        for (int sg : {-1, 1})
        {
          Vec m;
          m[i] = sg;
          std::vector<int> key(DIM, 0);
          key[i] = sg;
          if (seen.insert(key).second)
            ml.push_back(m);
        }
    }
  }
  w.base = s.pick({1.0f, 0.5f, 0.0f, 3.0f});
  w.lenw = s.pick({1.0f, 0.5f, 2.0f});
  w.noise_mod = s.pick({1, 4, 40});
  w.noise_seed = s.draw(1000);
  w.use_flt_max = s.flip();
  w.reject_mod = s.chance(1, 4) ? s.irange(2, 6) : 0;
  return w;
}

template <int DIM, int NC>
typename World<DIM, NC>::Vec genCell(pbt::Src& s, World<DIM, NC>& w, bool denorm)
{
  typename World<DIM, NC>::Vec v;
  for (int i = 0; i < DIM; ++i)
  {
    v[i] = s.irange(0, w.size[i] - 1);
    if (i >= NC && denorm && s.chance(1, 3))
      v[i] += w.size[i] * s.irange(-2, 2);
  }
  return v;
}

// hmode: 0 zero, 1 exact, 2 scaled exact, 3 exact with FLT_MAX at unreachable cells, 4 arbitrary (inadmissible)
template <int DIM, int NC>
void genEstimate(pbt::Src& s, Case<DIM, NC>& c, bool consistent)
{
  auto& w = c.w;
  using Vec = typename World<DIM, NC>::Vec;
  w.h.assign(w.n, 0.0f);
  c.hmode = s.weighted({2, 3, 2, 2, consistent ? 0 : 3});
  if (c.hmode == 0)
    return;
  if (c.hmode == 4)
  {
    pbt::Rng r(s.bits());
    const float sc = s.pick({1.0f, 10.0f, 0.3f});
    for (auto& x : w.h)
      x = sc * static_cast<float>(r.next() % 100) / 10.0f;
    return;
  }
  Vec g = c.goal;
  if (!w.wrap(g))
    return;
  auto d = dijkstra(w, {{w.idx(g), 0.0}}, true);
  double mx = 0;
  for (double x : d)
    if (std::isfinite(x))
      mx = std::max(mx, x);
  const float k = c.hmode == 2 ? s.pick({0.5f, 0.9f, 0.1f}) : 1.0f;
  for (int i = 0; i < w.n; ++i)
  {
    // an unreachable cell may be estimated as anything that keeps consistency; FLT_MAX means "skip"
    if (std::isfinite(d[i]))
      w.h[i] = static_cast<float>(d[i]) * k;
    else
      w.h[i] = c.hmode == 3 ? FMAX : static_cast<float>(mx) * k;
  }
  // A start from which the goal is unreachable may be estimated as such.
  if (s.flip())
    return;
  for (auto& st : c.starts)
  {
    Vec v = st.v_;
    w.wrap(v);
    if (w.h[w.idx(v)] == FMAX)
      w.h[w.idx(v)] = static_cast<float>(mx);
  }
}

template <int DIM, int NC>
std::string show(const Case<DIM, NC>& c)
{
  std::ostringstream o;
  auto vs = [](const auto& v) {
    std::ostringstream q;
    q << "(";
    for (int i = 0; i < DIM; ++i)
      q << (i ? "," : "") << v[i];
    q << ")";
    return q.str();
  };
  o << "dim " << DIM << " noncyclic " << NC << " size " << vs(c.w.size) << " goal " << vs(c.goal) << " starts";
  for (auto& s : c.starts)
    o << " " << vs(s.v_) << ":" << s.c_;
  int b = 0;
  for (auto x : c.w.blocked)
    b += x;
  o << " blocked " << b << "/" << c.w.n << " moves";
  for (auto& l : c.w.moves)
    o << " [" << l.size() << "]";
  o << " estimate-mode " << c.hmode << " tasks " << c.tasks << " threads " << c.threads << " leave " << c.leave
    << " limit " << c.limit << " best " << c.ret_best << " abort_at " << c.abort_at;
  return o.str();
}
template <class Vec>
std::string showPath(const std::list<Vec>& p, int dim)
{
  std::ostringstream o;
  for (auto& v : p)
  {
    o << "(";
    for (int i = 0; i < dim; ++i)
      o << (i ? "," : "") << v[i];
    o << ") ";
  }
  return o.str();
}

// Checks that `path` is a chain of accepted moves from a start; returns its cost including the start's.
template <int DIM, int NC>
double checkPath(const Case<DIM, NC>& c, const std::list<typename World<DIM, NC>::Vec>& path, const char* what)
{
  const auto& w = c.w;
  const std::string tag = std::string(what);
  PBT_CHECK(!path.empty(), tag + "-empty", "empty path; " << show(c));
  for (auto v : path)
  {
    for (int i = 0; i < DIM; ++i)
      PBT_CHECK(v[i] >= 0 && v[i] < w.size[i], tag + "-outside", "path leaves the map: " << showPath(path, DIM) << show(c));
  }
  double best_start = INFINITY;
  for (auto& st : c.starts)
  {
    auto v = st.v_;
    w.wrap(v);
    if (v == path.front())
      best_start = std::min<double>(best_start, st.c_);
  }
  PBT_CHECK(std::isfinite(best_start), tag + "-start", "path does not begin at a start: " << showPath(path, DIM) << show(c));
  double cost = best_start;
  auto it = path.begin();
  auto prev = it++;
  for (; it != path.end(); prev = it++)
  {
    float best = FMAX;
    for (auto& m : w.moves[w.setOf(*prev)])
    {
      auto t = *prev + m;
      if (!w.wrap(t) || !(t == *it))
        continue;
      const float e = w.edge(*prev, *it);
      if (e >= 0)
        best = std::min(best, e);
    }
    PBT_CHECK(best != FMAX, tag + "-move", "path contains a move the model does not offer or rejects: " << showPath(path, DIM) << show(c));
    cost += best;
  }
  return cost;
}

template <int DIM, int NC>
struct RunResult
{
  bool ret;
  std::list<typename World<DIM, NC>::Vec> path;
  int calls = 0;
  bool aborted = false;
};

template <int DIM, int NC>
RunResult<DIM, NC> run(pc::GridAstar<DIM, NC>& as, const Case<DIM, NC>& c, const char* ctx)
{
  RunResult<DIM, NC> r;
  typename pc::GridAstarModelBase<DIM, NC>::Ptr model(new Model<DIM, NC>(c.w));
  omp_set_dynamic(0);
  omp_set_num_threads(c.threads);
  if (!c.default_tasks)
    as.setSearchTaskNum(c.tasks);
  as.setQueueSizeLimit(c.limit);
  pbt::Fail pending;
  bool bad = false;
  size_t last_loop = 0, total = 0;
  auto cb = [&](const std::list<typename World<DIM, NC>::Vec>& p, const pc::SearchStats& st) {
    // exceptions must not leave the parallel region
    try
    {
      checkPath(c, p, "progress-path");
      PBT_CHECK(st.num_loop > last_loop, "stats", "loop counter did not increase");
      total += st.num_prev_updates;
      PBT_CHECK(c.interval > 0 || st.num_total_updates == total, "stats", "total updates " << st.num_total_updates << " != sum of reported " << total);
      last_loop = st.num_loop;
    }
    catch (const pbt::Fail& f)
    {
      if (!bad)
        pending = f;
      bad = true;
    }
    ++r.calls;
    if (c.abort_at >= 0 && r.calls > c.abort_at)
    {
      r.aborted = true;
      return false;
    }
    return true;
  };
  r.ret = as.search(c.starts, c.goal, r.path, model, cb, c.leave, c.interval, c.ret_best);
  if (bad)
    throw pending;
  return r;
}

template <int DIM, int NC>
Case<DIM, NC> genCase(pbt::Src& s, bool consistent)
{
  Case<DIM, NC> c;
  c.w = genWorld<DIM, NC>(s);
  c.goal = genCell(s, c.w, true);
  const int ns = s.weighted({10, 4, 2}) + 1;
  for (int i = 0; i < ns; ++i)
  {
    auto v = genCell(s, c.w, true);
    auto nv = v;
    c.w.wrap(nv);
    bool dup = false;
    for (auto& o : c.starts)
    {
      auto ov = o.v_;
      c.w.wrap(ov);
      dup = dup || ov == nv;
    }
    if (dup)
      continue;
    c.starts.emplace_back(v, ns > 1 && s.flip() ? static_cast<float>(s.irange(0, 40)) * 0.25f : 0.0f);
  }
  genEstimate(s, c, consistent);
  c.tasks = s.pick({1, 1, 2, 5, 20});
  c.threads = s.chance(1, 10) ? s.irange(2, 4) : 1;
  return c;
}

// Shared oracle for one finished search without abort or queue limit.
template <int DIM, int NC>
void judge(pbt::Ctx& ctx, const Case<DIM, NC>& c, const RunResult<DIM, NC>& r, bool optimal)
{
  const auto& w = c.w;
  bool start_is_goal = c.starts.empty();
  for (auto& st : c.starts)
    start_is_goal = start_is_goal || st.v_ == c.goal;
  if (start_is_goal)
  {
    PBT_CHECK(!r.ret, "start-is-goal", "search succeeded although the start already is the goal (or there is none); " << show(c));
    ctx.label("start is goal");
    return;
  }
  auto e = c.goal;
  const bool goal_in = w.wrap(e);
  std::vector<std::pair<int, double>> src;
  for (auto& st : c.starts)
  {
    auto v = st.v_;
    w.wrap(v);
    src.push_back({w.idx(v), st.c_});
  }
  auto d = dijkstra(w, src, false);
  double best = goal_in ? d[w.idx(e)] : INFINITY;
  bool reach = std::isfinite(best);
  bool leave_reach = false, leave_unsure = false;
  if (c.leave > 0)
    for (int i = 0; i < w.n; ++i)
      if (std::isfinite(d[i]))
      {
        leave_reach = leave_reach || w.h[i] < c.leave * 0.999f - 1e-3f;
        leave_unsure = leave_unsure || w.h[i] < c.leave * 1.001f + 1e-3f;
      }
  if (reach || leave_reach)
    PBT_CHECK(r.ret, "not-found", "a path exists (cost " << best << ") but the search failed; " << show(c));
  else if (!leave_unsure)
    PBT_CHECK(!r.ret, "found-impossible", "no path exists but the search succeeded: " << showPath(r.path, DIM) << show(c));
  if (!r.ret)
  {
    if (c.ret_best)
    {
      checkPath(c, r.path, "best-path");
      if (c.tasks == 1)
      {
        // everything reachable has been expanded: the best-effort path ends where the estimate is least
        double mn = INFINITY;
        for (int i = 0; i < w.n; ++i)
          if (std::isfinite(d[i]))
            mn = std::min<double>(mn, w.h[i]);
        const double got = w.h[w.idx(r.path.back())];
        PBT_CHECK(got <= mn + 1e-3 * (1 + std::abs(mn)), "best-not-best",
                  "best-effort path ends at estimate " << got << " although " << mn << " was reachable; " << show(c));
      }
      ctx.label("best effort path");
    }
    else
    {
      PBT_CHECK(r.path.empty(), "path-on-failure", "failed search returned a path " << showPath(r.path, DIM) << show(c));
    }
    ctx.label("unreachable");
    // non-trivial when some of the map could be explored at all
    int cnt = 0;
    for (double x : d)
      cnt += std::isfinite(x);
    ctx.nontrivial(cnt > 3);
    return;
  }
  const double cost = checkPath(c, r.path, "path");
  const auto last = r.path.back();
  const float hl = w.h[w.idx(last)];
  PBT_CHECK(last == e || (c.leave > 0 && hl < c.leave * 1.001f + 1e-3f), "wrong-end",
            "path ends at neither the goal nor within the leave cost: " << showPath(r.path, DIM) << show(c));
  const double opt = d[w.idx(last)];
  PBT_CHECK(cost >= opt - 1e-3 * (1 + opt), "too-cheap", "path cost " << cost << " below the true minimum " << opt << "; " << show(c));
  if (optimal && c.leave <= 0)
  {
    // A start lying on a cheaper path from another start is allowed to cut it: then the
    // reported start changes.  Only starts that are not dominated must give the minimum.
    bool dominated = false;
    for (auto& st : c.starts)
    {
      auto v = st.v_;
      w.wrap(v);
      dominated = dominated || d[w.idx(v)] < st.c_ - 1e-6;
    }
    if (!dominated)
      PBT_CHECK(cost <= opt + 1e-3 * (1 + opt), "not-optimal",
                "path cost " << cost << " but " << opt << " is possible: " << showPath(r.path, DIM) << show(c));
    ctx.labelIf(dominated, "dominated start");
  }
  ctx.labelIf(r.path.size() > 5, "long path");
  ctx.nontrivial(r.path.size() > 2);
}

template <int DIM, int NC>
void validity(pbt::Ctx& ctx)
{
  pbt::Src& s = ctx.src;
  auto c = genCase<DIM, NC>(s, false);
  c.ret_best = s.chance(1, 3);
  if (s.chance(1, 4))
    c.leave = s.pick({0.3f, 1.0f, 4.0f, 10.5f});
  if (s.chance(1, 20))
    c.starts.clear();
  if (NC > 0 && s.chance(1, 20))
    c.goal[0] = s.flip() ? -1 : c.w.size[0];
  const bool shown = s.chance(1, 3);
  if (shown)
    c.interval = 0;
  ctx.describe([&](std::ostream& o) { o << show(c); });
  pc::GridAstar<DIM, NC> as;
  as.reset(c.w.size);
  auto r = run(as, c, "validity");
  judge(ctx, c, r, false);
  ctx.labelIf(c.threads > 1, "threads>1");
  ctx.labelIf(c.tasks > 1, "tasks>1");
}
PBT_FACET(valid_3d, 4, "random 3-D maps (third axis cyclic), move sets, edge costs, estimates (also inadmissible), tasks, threads; non-trivial: found path of >2 cells, or unreachable goal with >3 explorable cells")
{
  validity<3, 2>(c);
}
PBT_FACET(valid_2d, 2, "same on 2-D non-cyclic maps")
{
  validity<2, 2>(c);
}
PBT_FACET(valid_torus, 2, "same on 2-D maps with both axes cyclic")
{
  validity<2, 0>(c);
}

template <int DIM, int NC>
void optimality(pbt::Ctx& ctx)
{
  pbt::Src& s = ctx.src;
  auto c = genCase<DIM, NC>(s, true);
  c.tasks = 1;
  c.threads = s.chance(1, 20) ? 2 : 1;
  c.default_tasks = s.chance(1, 4);
  ctx.describe([&](std::ostream& o) { o << show(c); });
  // dirty memory, so that a member left unset by a constructor has a definite wrong value
  using AS = pc::GridAstar<DIM, NC>;
  alignas(64) static char mem[sizeof(AS) + 64];
  memset(mem, 0x3f, sizeof(mem));
  AS* as = s.chance(1, 4) ? new (mem) AS() : new (mem) AS(c.w.size);
  as->reset(c.w.size);
  RunResult<DIM, NC> r;
  try
  {
    r = run(*as, c, "optimality");
  }
  catch (...)
  {
    as->~AS();
    throw;
  }
  as->~AS();
  judge(ctx, c, r, true);
}
PBT_FACET(optimal_3d, 4, "random 3-D maps with consistent estimates (zero, exact, scaled exact), one task; path cost compared with Dijkstra; non-trivial: path of >2 cells or unreachable goal")
{
  optimality<3, 2>(c);
}
PBT_FACET(optimal_2d, 2, "same on 2-D non-cyclic maps")
{
  optimality<2, 2>(c);
}
PBT_FACET(optimal_torus, 2, "same on 2-D tori")
{
  optimality<2, 0>(c);
}
PBT_FACET(multi_task, 2, "consistent estimates with 2..20 tasks: valid, never below the optimum")
{
  pbt::Src& s = c.src;
  auto k = genCase<3, 2>(s, true);
  k.tasks = s.pick({2, 3, 8, 20, 100});
  k.threads = s.chance(1, 5) ? s.irange(2, 4) : 1;
  c.describe([&](std::ostream& o) { o << show(k); });
  pc::GridAstar<3, 2> as(k.w.size);
  auto r = run(as, k, "multi");
  judge(c, k, r, false);
}

// A history of searches on one instance, each compared with a fresh instance.
template <int DIM, int NC>
void history(pbt::Ctx& ctx)
{
  pbt::Src& s = ctx.src;
  pc::GridAstar<DIM, NC> as;
  const int steps = s.irange(2, 5);
  typename World<DIM, NC>::Vec cur;
  bool have = false;
  int nt = 0;
  Case<DIM, NC> c;
  for (int k = 0; k < steps; ++k)
  {
    if (k == 0 || s.chance(1, 3))
    {
      c = genCase<DIM, NC>(s, false);
      if (!have || !(cur == c.w.size))
        as.reset(c.w.size);
      cur = c.w.size;
      have = true;
    }
    else
    {
      // same map, another request
      c.goal = genCell(s, c.w, true);
      c.starts.clear();
      c.starts.emplace_back(genCell(s, c.w, true), 0.0f);
      genEstimate(s, c, false);
    }
    c.ret_best = s.flip();
    c.tasks = s.pick({1, 1, 3});
    c.threads = 1;
    c.limit = s.chance(1, 4) ? s.irange(1, 6) : 0;
    c.interval = s.flip() ? 0.0f : 1e6f;
    c.abort_at = c.interval == 0 && s.chance(1, 2) ? s.irange(0, 6) : -1;
    ctx.describe([&](std::ostream& o) { o << "step " << k << ": " << show(c) << "\n"; });
    auto r = run(as, c, "history");
    pc::GridAstar<DIM, NC> fresh(c.w.size);
    auto f = run(fresh, c, "fresh");
    PBT_CHECK(r.ret == f.ret && r.path == f.path, "history-dependent",
              "search on a used instance differs from a fresh one: " << r.ret << " " << showPath(r.path, DIM) << "vs " << f.ret << " "
                                                                     << showPath(f.path, DIM) << "; " << show(c));
    bool sg = false;
    for (auto& st : c.starts)
      sg = sg || st.v_ == c.goal;
    if (r.aborted)
    {
      ctx.label("aborted");
      PBT_CHECK(r.calls == c.abort_at + 1, "abort-ignored", "progress callback called again after asking to stop");
      if (r.ret)
        checkPath(c, r.path, "abort-path");
      else if (c.ret_best)
        checkPath(c, r.path, "abort-best");
      else
        PBT_CHECK(r.path.empty(), "path-on-abort", "aborted search returned a path " << showPath(r.path, DIM));
      ++nt;
    }
    else if (c.limit > 0)
    {
      ctx.label("queue limit");
      if (r.ret)
      {
        checkPath(c, r.path, "limited-path");
        auto e = c.goal;
        c.w.wrap(e);
        PBT_CHECK(r.path.back() == e, "limited-end", "path with queue limit does not end at the goal");
      }
      else if (c.ret_best && !sg)
        checkPath(c, r.path, "limited-best");
      ++nt;
    }
    else
    {
      pbt::Src dummy(0);
      pbt::Ctx c2(dummy);
      judge(c2, c, r, false);
      nt += c2.nontrivial_;
    }
  }
  ctx.nontrivial(nt >= 2);
}
PBT_FACET(history_3d, 3, "2..5 searches on one instance with resizes, aborts at the k-th progress call, queue limits, best-effort; each step compared with a fresh instance; non-trivial: at least two steps that searched")
{
  history<3, 2>(c);
}
PBT_FACET(history_torus, 1, "same on 2-D tori")
{
  history<2, 0>(c);
}
