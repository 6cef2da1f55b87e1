// P04, P05: block-structured grid map and cyclic vectors.
#include <cassert>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>

#include <planner_cspace/blockmem_gridmap.h>
#include <planner_cspace/cyclic_vec.h>

#include "pbt.h"

namespace pc = planner_cspace;

// ---------------------------------------------------------------- P04
template <class T, int DIM, int NC>
struct Ref
{
  using V = pc::CyclicVecInt<DIM, NC>;
  V size;
  std::vector<T> c;
  std::vector<bool> known;
  int n = 0;
  void reset(const V& s)
  {
    size = s;
    n = 1;
    for (int i = 0; i < DIM; ++i)
      n *= s[i];
    c.assign(n, T());
    known.assign(n, false);
  }
  int idx(const V& v) const
  {
    int a = 0;
    for (int i = 0; i < DIM; ++i)
      a = a * size[i] + v[i];
    return a;
  }
  V cell(int a) const
  {
    V v;
    for (int i = DIM - 1; i >= 0; --i)
    {
      v[i] = a % size[i];
      a /= size[i];
    }
    return v;
  }
};
template <class V>
std::string vs(const V& v, int dim)
{
  std::ostringstream o;
  o << "(";
  for (int i = 0; i < dim; ++i)
    o << (i ? "," : "") << v[i];
  o << ")";
  return o.str();
}

template <class T>
T val(pbt::Src& s)
{
  return static_cast<T>(s.irange(-100, 100));
}

template <int DIM, int NC, int BW>
pc::CyclicVecInt<DIM, NC> genSize(pbt::Src& s)
{
  pc::CyclicVecInt<DIM, NC> v;
  const bool big = s.chance(1, 4);
  long n = 1;
  for (int i = 0; i < DIM; ++i)
  {
    const int mode = s.weighted({4, 2, 2});
    if (mode == 1)
      v[i] = BW * s.irange(1, 2);  // exact multiples
    else if (mode == 2)
      v[i] = BW * s.irange(1, 2) + s.irange(-1, 1);
    else
      v[i] = s.irange(1, big ? 70 : 12);
    if (i >= NC)
      v[i] = s.irange(1, 17);
    v[i] = std::max(1, v[i]);
    if (n * v[i] > 4000)
      v[i] = std::max<long>(1, 4000 / n);
    n *= v[i];
  }
  return v;
}

template <class T, int DIM, int NC, int BW, bool EV>
void gridHistory(pbt::Ctx& ctx)
{
  using V = pc::CyclicVecInt<DIM, NC>;
  using M = pc::BlockMemGridmap<T, DIM, NC, BW, EV>;
  using M2 = pc::BlockMemGridmap<T, DIM, NC, 16, false>;
  pbt::Src& s = ctx.src;
  M m;
  Ref<T, DIM, NC> r;
  std::ostringstream log;
  const int steps = s.irange(1, 14);
  bool wrote = false, partial = false;
  auto rnd = [&](const V& sz) {
    V v;
    for (int i = 0; i < DIM; ++i)
      v[i] = s.chance(1, 4) ? (s.flip() ? 0 : sz[i] - 1) : s.irange(0, sz[i] - 1);
    return v;
  };
  auto verify = [&](const char* op) {
    PBT_CHECK(m.size() == r.size, "size", "size " << vs(m.size(), DIM) << " after " << op << " expected " << vs(r.size, DIM) << log.str());
    const M& cm = m;
    for (int i = 0; i < r.n; ++i)
      if (r.known[i])
      {
        const V v = r.cell(i);
        PBT_CHECK(cm[v] == r.c[i], "read", "cell " << vs(v, DIM) << " of " << vs(r.size, DIM) << " reads " << +cm[v] << " expected " << +r.c[i] << " after " << op << log.str());
        PBT_CHECK(m[v] == r.c[i], "read", "cell " << vs(v, DIM) << " reads differently through the mutable accessor" << log.str());
      }
  };
  auto doReset = [&](bool fill) {
    const V sz = genSize<DIM, NC, BW>(s);
    m.reset(sz);
    r.reset(sz);
    log << "\n reset " << vs(sz, DIM);
    // addresses are distinct and inside the storage
    auto ad = m.getAddressor();
    std::vector<uint8_t> used(m.ser_size(), 0);
    const T* base = &m[V()];
    std::set<std::pair<size_t, size_t>> seen;
    for (int i = 0; i < r.n; ++i)
    {
      size_t b, a;
      ad(r.cell(i), b, a);
      if (r.n < 400)
        PBT_CHECK(seen.insert({b, a}).second, "address-shared", "two cells share an address at " << vs(r.cell(i), DIM) << log.str());
      const ptrdiff_t off = &m[r.cell(i)] - base;
      PBT_CHECK(off >= 0 && static_cast<size_t>(off) < m.ser_size(), "ser-size", "cell " << vs(r.cell(i), DIM) << " lies outside the storage" << log.str());
      PBT_CHECK(!used[off], "address-shared", "two cells share storage at " << vs(r.cell(i), DIM) << log.str());
      used[off] = 1;
    }
    PBT_CHECK(m.ser_size() >= static_cast<size_t>(r.n), "ser-size", "storage smaller than the number of cells" << log.str());
    if (fill)
    {
      const int mul = s.irange(1, 120), add = s.irange(-60, 60);
      auto f = [&](int i) { return static_cast<T>((i * mul + add) % 101 - 30); };
      for (int i = 0; i < r.n; ++i)
      {
        m[r.cell(i)] = f(i);
        r.c[i] = f(i);
        r.known[i] = true;
      }
      log << " fill " << mul << " " << add;
    }
  };
  doReset(s.flip());
  for (int k = 0; k < steps; ++k)
  {
    const int op = s.weighted({2, 3, 2, 2, 4, 4, 3, 2, 3});
    if (op == 0)
    {
      doReset(s.chance(3, 4));
    }
    else if (op == 1)
    {
      for (int j = s.irange(1, 6); j > 0; --j)
      {
        const V v = rnd(r.size);
        const T x = val<T>(s);
        m[v] = x;
        r.c[r.idx(v)] = x;
        r.known[r.idx(v)] = true;
        log << "\n [" << vs(v, DIM) << "]=" << +x;
      }
      wrote = true;
    }
    else if (op == 2)
    {
      const T x = val<T>(s);
      m.clear(x);
      r.c.assign(r.n, x);
      r.known.assign(r.n, true);
      log << "\n clear " << +x;
    }
    else if (op == 3)
    {
      const T x = val<T>(s);
      m.clear_positive(x);
      for (auto& v : r.c)
        if (v >= 0)
          v = x;
      log << "\n clear_positive " << +x;
    }
    else if (op == 4 && DIM == 3)
    {
      V a = rnd(r.size), b = rnd(r.size);
      if (s.chance(9, 10))
        for (int i = 0; i < DIM; ++i)
          if (a[i] > b[i])
            std::swap(a[i], b[i]);
      const T x = val<T>(s);
      m.clear_partially(x, a, b);
      for (int i = 0; i < r.n; ++i)
      {
        const V v = r.cell(i);
        bool in = true;
        for (int d = 0; d < DIM; ++d)
          in = in && a[d] <= v[d] && v[d] <= b[d];
        if (in)
        {
          r.c[i] = x;
          r.known[i] = true;
        }
      }
      partial = true;
      log << "\n clear_partially " << +x << vs(a, DIM) << vs(b, DIM);
    }
    else if ((op == 5 || op == 6) && DIM == 3)
    {
      // copy from a map of another block width
      const bool off = op == 6;
      V sz = off ? genSize<DIM, NC, BW>(s) : r.size;
      Ref<T, DIM, NC> rs;
      rs.reset(sz);
      M2 src(sz);
      const int mul = s.irange(1, 50), add = s.irange(-10, 10);
      for (int i = 0; i < rs.n; ++i)
      {
        rs.c[i] = static_cast<T>((i * mul + add) % 97 - 20);
        src[rs.cell(i)] = rs.c[i];
      }
      V a = rnd(sz), b = rnd(sz), dst;
      for (int i = 0; i < DIM; ++i)
      {
        if (a[i] > b[i])
          std::swap(a[i], b[i]);
        if (off)
        {
          // the shifted box has to fit
          const int w = b[i] - a[i] + 1;
          if (w > r.size[i])
            b[i] = a[i] + r.size[i] - 1;
          dst[i] = s.irange(0, r.size[i] - (b[i] - a[i] + 1));
        }
        else
          dst[i] = a[i];
      }
      if (off)
        m.copy_partially(dst, src, a, b);
      else
        m.copy_partially(src, a, b);
      for (int i = 0; i < rs.n; ++i)
      {
        const V v = rs.cell(i);
        bool in = true;
        V t;
        for (int d = 0; d < DIM; ++d)
        {
          in = in && a[d] <= v[d] && v[d] <= b[d];
          t[d] = v[d] - a[d] + dst[d];
        }
        if (in)
        {
          r.c[r.idx(t)] = rs.c[i];
          r.known[r.idx(t)] = true;
        }
      }
      partial = true;
      log << "\n copy_partially" << (off ? " with offset " : " ") << vs(a, DIM) << vs(b, DIM) << " to " << vs(dst, DIM);
    }
    else if (op == 7)
    {
      M o;
      if (s.flip())
        o.reset(genSize<DIM, NC, BW>(s));  // capacity reuse on assignment
      o = m;
      PBT_CHECK(o.size() == r.size, "assign", "assignment changes the size" << log.str());
      for (int i = 0; i < r.n; ++i)
        if (r.known[i])
          PBT_CHECK(o[r.cell(i)] == r.c[i], "assign", "assigned copy differs at " << vs(r.cell(i), DIM) << log.str());
      // the copy is independent
      const V v = rnd(r.size);
      if (r.known[r.idx(v)])
      {
        o[v] = static_cast<T>(r.c[r.idx(v)] == 7 ? 9 : 7);
        PBT_CHECK(m[v] == r.c[r.idx(v)], "assign", "the copy shares storage with its source" << log.str());
      }
      log << "\n assign";
    }
    else
    {
      for (int j = 0; j < 4; ++j)
      {
        V v;
        for (int i = 0; i < DIM; ++i)
          v[i] = s.irange(-r.size[i] - 2, 2 * r.size[i] + 2);
        const int tol = s.flip() ? s.irange(0, 5) : 0;
        bool in = true;
        for (int i = 0; i < DIM; ++i)
          in = in && (i < NC ? (v[i] >= tol && v[i] < r.size[i] - tol) : (v[i] >= 0 && v[i] < r.size[i]));
        PBT_CHECK(m.validate(v, tol) == in, "validate", "validate(" << vs(v, DIM) << ", " << tol << ") is " << !in << " for size " << vs(r.size, DIM));
        if (EV)
        {
          // accesses far outside must not touch any cell
          V f = v;
          f[s.irange(0, NC > 0 ? NC - 1 : DIM - 1)] = s.flip() ? 100000 : -100000;
          m[f] = 55;
          const M& cm = m;
          PBT_CHECK(cm[f] == std::numeric_limits<T>::max(), "outside", "reading outside gives " << +cm[f]);
        }
      }
      log << "\n probe";
    }
    if (s.chance(1, 3) || k == steps - 1)
      verify("step");
  }
  ctx.describe([&](std::ostream& o) { o << "dim " << DIM << " noncyclic " << NC << " block " << BW << log.str(); });
  ctx.nontrivial(steps >= 3 && (wrote || partial) && r.n > 8);
}
#define RULE "random sequences of reset/write/clear/partial clear/partial copy/assign/validate against a plain array; non-trivial: >=3 steps, at least one write, >8 cells"
PBT_FACET(grid_3d, 6, RULE)
{
  switch (c.src.irange(0, 5))
  {
    case 0:
      return gridHistory<char, 3, 2, 0x20, false>(c);
    case 1:
      return gridHistory<float, 3, 2, 0x20, false>(c);
    case 2:
      return gridHistory<char, 3, 2, 0x40, true>(c);
    case 3:
      return gridHistory<float, 3, 2, 4, true>(c);
    case 4:
      return gridHistory<int, 3, 2, 1, false>(c);
    default:
      return gridHistory<char, 3, 2, 0x80, false>(c);
  }
}
PBT_FACET(grid_2d, 3, RULE)
{
  switch (c.src.irange(0, 3))
  {
    case 0:
      return gridHistory<char, 2, 2, 0x80, false>(c);
    case 1:
      return gridHistory<float, 2, 0, 0x20, false>(c);
    case 2:
      return gridHistory<int, 2, 1, 8, false>(c);
    default:
      return gridHistory<char, 2, 2, 0x20, true>(c);
  }
}
PBT_FACET(grid_other, 2, RULE)
{
  switch (c.src.irange(0, 2))
  {
    case 0:
      return gridHistory<float, 3, 3, 2, false>(c);
    case 1:
      return gridHistory<int, 4, 2, 4, false>(c);
    default:
      return gridHistory<float, 3, 1, 16, false>(c);
  }
}

// ---------------------------------------------------------------- P05
template <int DIM, int NC>
void cyc(pbt::Ctx& ctx)
{
  using V = pc::CyclicVecInt<DIM, NC>;
  pbt::Src& s = ctx.src;
  V v, res, w;
  const int big = s.pick({8, 40, 1000, 1000000});
  for (int i = 0; i < DIM; ++i)
  {
    v[i] = s.irange(-big, big);
    w[i] = s.chance(1, 3) ? v[i] : s.irange(-big, big);
    res[i] = s.irange(1, s.pick({4, 40, 1000}));
    if (s.chance(1, 4))
      v[i] = res[i] / 2 + s.irange(-1, 1) + res[i] * s.irange(-3, 3);
    if (s.chance(1, 8))
      v[i] = res[i] * s.irange(-3, 3) + s.irange(-1, 1);
  }
  ctx.describe([&](std::ostream& o) { o << "v " << vs(v, DIM) << " w " << vs(w, DIM) << " modulus " << vs(res, DIM); });
  bool moved = false;
  V a = v, b = v;
  a.cycle(res);
  b.cycleUnsigned(res);
  for (int i = 0; i < DIM; ++i)
  {
    const int n = res[i];
    if (i < NC)
    {
      PBT_CHECK(a[i] == v[i] && b[i] == v[i], "noncyclic-changed", "axis " << i << " of " << vs(v, DIM));
      continue;
    }
    moved = moved || a[i] != v[i] || b[i] != v[i];
    PBT_CHECK(b[i] >= 0 && b[i] < n && (b[i] - v[i]) % n == 0, "unsigned-wrap", v[i] << " mod " << n << " gives " << b[i]);
    PBT_CHECK(a[i] >= n / 2 - n && a[i] < n / 2 && (a[i] - v[i]) % n == 0, "signed-wrap", v[i] << " mod " << n << " gives " << a[i]);
  }
  V a2 = a, b2 = b;
  a2.cycle(res);
  b2.cycleUnsigned(res);
  PBT_CHECK(a2 == a && b2 == b, "idempotent", "wrapping twice differs");
  // the variadic forms agree with the vector forms
  V a3 = v, b3 = v;
  if constexpr (DIM - NC == 1)
  {
    a3.cycle(res[NC]);
    b3.cycleUnsigned(res[NC]);
    PBT_CHECK(a3 == a && b3 == b, "variadic", "cycle(n) differs from cycle(vector)");
  }
  if constexpr (DIM - NC == 2)
  {
    a3.cycle(res[NC], res[NC + 1]);
    b3.cycleUnsigned(res[NC], res[NC + 1]);
    PBT_CHECK(a3 == a && b3 == b, "variadic", "cycle(n, m) differs from cycle(vector)");
  }
  // in-range test
  bool in = true;
  for (int i = 0; i < NC; ++i)
    in = in && v[i] >= 0 && v[i] < res[i];
  PBT_CHECK(v.isExceeded(res) == !in, "exceeded", vs(v, DIM) << " in " << vs(res, DIM));
  // arithmetic
  const V sum = v + w, dif = v - w;
  bool eq = true;
  for (int i = 0; i < DIM; ++i)
  {
    PBT_CHECK(sum[i] == v[i] + w[i], "add", vs(v, DIM) << "+" << vs(w, DIM));
    PBT_CHECK(dif[i] == v[i] - w[i], "sub", vs(v, DIM) << "-" << vs(w, DIM));
    if (big <= 1000)
      PBT_CHECK((v * w)[i] == v[i] * w[i], "mul", vs(v, DIM) << "*" << vs(w, DIM));
    eq = eq && v[i] == w[i];
  }
  PBT_CHECK((v == w) == eq && (v != w) == !eq, "equality", vs(v, DIM) << " and " << vs(w, DIM));
  V cp = v;
  PBT_CHECK(cp(cp) == v(v) && (!eq || v(v) == w(w)), "hash", "equal vectors hash differently");
  // length
  if (big <= 1000)
  {
    double sq = 0, nn = 0;
    for (int i = 0; i < DIM; ++i)
    {
      if (i < NC)
        sq += static_cast<double>(v[i]) * v[i];
      nn += static_cast<double>(v[i]) * v[i];
    }
    PBT_CHECK(v.sqlen() == sq, "sqlen", vs(v, DIM) << " gives " << v.sqlen());
    PBT_CHECK(std::abs(v.len() - std::sqrt(sq)) <= 1e-5 * (1 + std::sqrt(sq)), "len", vs(v, DIM) << " gives " << v.len());
    PBT_CHECK(std::abs(v.norm() - std::sqrt(nn)) <= 1e-5 * (1 + std::sqrt(nn)), "norm", vs(v, DIM) << " gives " << v.norm());
    if (DIM >= 2)
    {
      const double cr = static_cast<double>(v[0]) * w[1] - static_cast<double>(v[1]) * w[0];
      const double dt = static_cast<double>(v[0]) * w[0] + static_cast<double>(v[1]) * w[1];
      PBT_CHECK(std::abs(v.cross2d(w) - cr) <= 1e-6 * std::abs(cr), "cross", vs(v, DIM) << " x " << vs(w, DIM) << " gives " << v.cross2d(w));
      PBT_CHECK(std::abs(v.dot2d(w) - dt) <= 1e-6 * std::abs(dt), "dot", vs(v, DIM) << " . " << vs(w, DIM) << " gives " << v.dot2d(w));
    }
    if (sq >= 1)
    {
      const double l = std::sqrt(sq);
      if (std::abs(l - std::round(l)) > 1e-3 || l == std::round(l))
      {
        const double e = l / std::floor(l + (l == std::round(l) ? 0.5 : 0));
        PBT_CHECK(std::abs(v.gridToLenFactor() - e) < 1e-4, "len-factor", vs(v, DIM) << " gives " << v.gridToLenFactor());
      }
    }
  }
  // conversions
  pc::CyclicVecFloat<DIM, NC> f(v);
  V back(f);
  if (big <= 1000000)
    PBT_CHECK(back == v, "convert", "int -> float -> int changes " << vs(v, DIM));
  for (int i = 0; i < DIM; ++i)
    f[i] = s.sym(1000.0);
  V rd(f);
  for (int i = 0; i < DIM; ++i)
    PBT_CHECK(std::abs(rd[i] - static_cast<double>(f[i])) <= 0.5, "round", f[i] << " becomes " << rd[i]);
  const auto mix = f + f;
  for (int i = 0; i < DIM; ++i)
    PBT_CHECK(mix[i] == f[i] + f[i] && (f - f)[i] == 0, "add-float", "float arithmetic");
  ctx.nontrivial(moved || DIM == NC);
}
PBT_FACET(cyclic_int, 4, "random vectors and moduli (boundaries, odd and even, 1) against integer arithmetic; non-trivial: wrapping changes a coordinate")
{
  switch (c.src.irange(0, 4))
  {
    case 0:
      return cyc<3, 2>(c);
    case 1:
      return cyc<2, 0>(c);
    case 2:
      return cyc<2, 2>(c);
    case 3:
      return cyc<4, 2>(c);
    default:
      return cyc<3, 1>(c);
  }
}

static double segDist(double px, double py, double ax, double ay, double bx, double by)
{
  const double l2 = (bx - ax) * (bx - ax) + (by - ay) * (by - ay);
  double t = l2 > 0 ? ((px - ax) * (bx - ax) + (py - ay) * (by - ay)) / l2 : 0;
  t = std::max(0.0, std::min(1.0, t));
  return std::hypot(px - ax - t * (bx - ax), py - ay - t * (by - ay));
}
template <class V>
void dists(pbt::Ctx& ctx, const V& p, const V& a, const V& b, double eps)
{
  ctx.describe([&](std::ostream& o) { o << "p " << vs(p, 3) << " a " << vs(a, 3) << " b " << vs(b, 3); });
  const double e = segDist(p[0], p[1], a[0], a[1], b[0], b[1]);
  const double g = p.distLinestrip2d(a, b);
  PBT_CHECK(std::abs(g - e) <= eps, "segment-distance", "p " << vs(p, 3) << " a " << vs(a, 3) << " b " << vs(b, 3) << " gives " << g << " expected " << e);
  if (a[0] != b[0] || a[1] != b[1])
  {
    const double l = std::hypot(b[0] - a[0], b[1] - a[1]);
    const double cr = ((static_cast<double>(b[0]) - a[0]) * (static_cast<double>(p[1]) - a[1]) - (static_cast<double>(b[1]) - a[1]) * (static_cast<double>(p[0]) - a[0])) / l;
    const double gl = p.distLine2d(a, b);
    PBT_CHECK(std::abs(gl - cr) <= eps * (1 + std::abs(cr) * 0.01), "line-distance", "p " << vs(p, 3) << " a " << vs(a, 3) << " b " << vs(b, 3) << " gives " << gl << " expected " << cr);
    ctx.nontrivial();
  }
}
PBT_FACET(cyclic_dist, 2, "random points and segments (also degenerate) against double-precision distances; non-trivial: proper segment")
{
  pbt::Src& s = c.src;
  if (s.flip())
  {
    using V = pc::CyclicVecInt<3, 2>;
    const int m = s.pick({3, 20, 500});
    V p(s.irange(-m, m), s.irange(-m, m), s.irange(-9, 9)), a(s.irange(-m, m), s.irange(-m, m), s.irange(-9, 9)), b(s.irange(-m, m), s.irange(-m, m), 0);
    if (s.chance(1, 8))
      b = a;
    dists(c, p, a, b, 1e-3 + m * 1e-5);
  }
  else
  {
    using V = pc::CyclicVecFloat<3, 2>;
    const double m = s.pick({2.0, 50.0});
    auto g = [&]() { return static_cast<float>(s.sym(m, 400)); };
    V p(g(), g(), g()), a(g(), g(), g()), b(g(), g(), g());
    if (s.chance(1, 8))
      b = a;
    if (s.chance(1, 8))
      p = a;
    dists(c, p, a, b, 2e-3);
  }
}
PBT_FACET(cyclic_rotate, 1, "random float poses and angles against double-precision rotation; non-trivial: angle and vector non-zero")
{
  pbt::Src& s = c.src;
  using V = pc::CyclicVecFloat<3, 2>;
  const V v(static_cast<float>(s.sym(20)), static_cast<float>(s.sym(20)), static_cast<float>(s.sym(M_PI)));
  const float ang = s.sym(M_PI);
  c.describe([&](std::ostream& o) { o << vs(v, 3) << " rotated by " << ang; });
  V w = v;
  w.rotate(ang);
  const double ex = std::cos(ang) * v[0] - std::sin(ang) * v[1], ey = std::sin(ang) * v[0] + std::cos(ang) * v[1];
  PBT_CHECK(std::abs(w[0] - ex) < 1e-4 && std::abs(w[1] - ey) < 1e-4, "rotate", vs(v, 3) << " by " << ang << " gives " << vs(w, 3));
  PBT_CHECK(std::abs(std::remainder(static_cast<double>(w[2]) - v[2] - ang, 2 * M_PI)) < 1e-4, "rotate-angle", vs(v, 3) << " by " << ang << " gives " << vs(w, 3));
  PBT_CHECK(std::abs(w[2]) <= M_PI + 1e-4, "rotate-range", "angle " << w[2] << " not normalised");
  c.nontrivial(ang != 0 && v.len() > 0.01);
}
