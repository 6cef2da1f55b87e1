// T01, T03, T07: velocity limiter, filters, line helpers.
#include <cmath>
#include <limits>

#include <Eigen/Core>

#include <trajectory_tracker/average.h>
#include <trajectory_tracker/basic_control.h>
#include <trajectory_tracker/eigen_line.h>
#include <trajectory_tracker/filter.h>

#include "pbt.h"

namespace tt = trajectory_tracker;
static constexpr float INF = std::numeric_limits<float>::infinity();

// ---------------------------------------------------------------- T01
PBT_FACET(limitter, 4, "random sequences of set/increment/clear with varying limits, steps and (rarely) non-finite targets, each step judged by the limits; non-trivial: the acceleration limit was active and a target was reached")
{
  pbt::Src& s = c.src;
  tt::VelAccLimitter l;
  PBT_CHECK(l.get() == 0, "initial", "a new limiter is not at rest");
  std::ostringstream log;
  double prev = 0;
  float vel = s.pick({1.0f, 0.5f, 3.0f, 0.0f}), acc = s.pick({1.0f, 0.3f, 5.0f}), dt = s.pick({0.1f, 0.02f, 0.5f});
  bool limited = false, reached = false;
  for (int k = s.irange(1, 25); k > 0; --k)
  {
    if (s.chance(1, 4))
      vel = static_cast<float>(s.real(0, 4));
    if (s.chance(1, 6))
      acc = static_cast<float>(s.real(0, 10));
    if (s.chance(1, 6))
      dt = static_cast<float>(s.real(0, 1));
    const int op = s.weighted({10, 6, 1});
    if (op == 2)
    {
      l.clear();
      PBT_CHECK(l.get() == 0, "clear", "clear leaves " << l.get());
      prev = 0;
      log << "; clear";
      continue;
    }
    float v = s.chance(1, 2) ? static_cast<float>(s.sym(6)) : static_cast<float>(prev + s.sym(0.3));
    if (s.chance(1, 30))
      v = s.pick({INF, -INF, std::numeric_limits<float>::quiet_NaN()});
    const float out = op == 0 ? l.set(v, vel, acc, dt) : l.increment(v, vel, acc, dt);
    log << (op == 0 ? "; set " : "; increment ") << v << " vel " << vel << " acc " << acc << " dt " << dt << " -> " << out;
    PBT_CHECK(out == l.get(), "get", "get() differs from the returned value" << log.str());
    PBT_CHECK(std::isfinite(out), "not-finite", "output " << out << log.str());
    if (std::isnan(v))
    {
      PBT_CHECK(out == 0, "nan", "undefined target gives " << out << log.str());
      prev = 0;
      continue;
    }
    const double tgt = op == 0 ? static_cast<double>(v) : prev + v;
    const double want = std::max<double>(-vel, std::min<double>(vel, tgt));
    const double step = static_cast<double>(acc) * dt;
    const double e = 1e-5 * (1 + std::abs(prev) + std::abs(want) + step);
    PBT_CHECK(std::abs(out - prev) <= step + e, "acceleration", "changed by " << out - prev << " but " << step << " is allowed" << log.str());
    PBT_CHECK(std::abs(out) <= std::max<double>(vel, std::abs(prev)) + e, "speed", "speed grew beyond the limit " << vel << log.str());
    if (std::abs(prev) > vel)
      PBT_CHECK(std::abs(out) <= std::max<double>(vel, std::abs(prev) - step) + e, "slow-down", "not slowing down to the limit " << vel << log.str());
    if (std::abs(want - prev) <= step)
    {
      PBT_CHECK(std::abs(out - want) <= e, "reach", "attainable " << want << " not reached" << log.str());
      reached = true;
    }
    else
    {
      PBT_CHECK(std::abs(out - (prev + std::copysign(step, want - prev))) <= e, "progress", "expected a full step of " << step << " towards " << want << log.str());
      limited = true;
    }
    prev = out;
  }
  c.describe([&](std::ostream& o) { o << log.str(); });
  c.nontrivial(limited && reached);
}
PBT_FACET(control_helpers, 2, "random angles, accelerations and bounds; non-trivial: non-zero angle")
{
  pbt::Src& s = c.src;
  const float a = static_cast<float>(s.sym(s.pick({4.0, 40.0, 0.01})));
  const float acc = static_cast<float>(s.real(0, 5));
  c.describe([&](std::ostream& o) { o << "angle " << a << " acc " << acc; });
  const float v = tt::timeOptimalControl(a, acc);
  PBT_CHECK(std::abs(v * v - 2 * std::abs(a) * acc) <= 1e-4 * (1 + std::abs(a) * acc), "time-optimal", "angle " << a << " acc " << acc << " gives " << v);
  PBT_CHECK(v * a <= 0, "time-optimal-sign", "angle " << a << " acc " << acc << " gives " << v);
  const float m = static_cast<float>(s.real(0, 4));
  PBT_CHECK(tt::clip(a, m) == std::max(-m, std::min(m, a)), "clip", "clip(" << a << ", " << m << ") is " << tt::clip(a, m));
  const float n = tt::angleNormalized(a);
  PBT_CHECK(std::abs(n) <= M_PI + 1e-5, "normalized-range", a << " becomes " << n);
  PBT_CHECK(std::abs(std::remainder(static_cast<double>(n) - a, 2 * M_PI)) < 1e-4, "normalized", a << " becomes " << n);
  c.nontrivial(a != 0);
}
// The limiter driven by the time-optimal law stops at the target without running past it by more than one step.
PBT_FACET(time_optimal_loop, 1, "random start angles and limits; the closed loop of time-optimal target and limiter; non-trivial: start angle beyond one step")
{
  pbt::Src& s = c.src;
  const double acc = s.real(0.2, 4), vel = s.real(0.2, 3), dt = s.pick({0.02, 0.05, 0.1});
  double x = s.sym(3);
  const double x0 = x;
  c.describe([&](std::ostream& o) { o << "x " << x << " acc " << acc << " vel " << vel << " dt " << dt; });
  tt::VelAccLimitter l;
  const double tol = 2 * vel * dt + 2 * acc * dt * dt + 1e-3;
  for (int k = 0; k < 3000; ++k)
  {
    const float v = l.set(tt::timeOptimalControl(x, acc), vel, acc, dt);
    PBT_CHECK(std::abs(v) <= vel + 1e-4, "loop-speed", "speed " << v << " over " << vel);
    x += v * dt;
    if (x0 > 0)
      PBT_CHECK(x > -tol, "overshoot", "from " << x0 << " overshoots to " << x << " acc " << acc << " vel " << vel << " dt " << dt);
    else
      PBT_CHECK(x < tol, "overshoot", "from " << x0 << " overshoots to " << x << " acc " << acc << " vel " << vel << " dt " << dt);
  }
  PBT_CHECK(std::abs(x) <= tol, "loop-end", "from " << x0 << " ends at " << x);
  c.nontrivial(std::abs(x0) > tol);
}

// ---------------------------------------------------------------- T03
struct RefFilter  // double-precision first order section, written from the definition
{
  bool hp;
  double a, b, tc;
  double w;  // smoothed input
  RefFilter(bool hp_, double tc_, double out0) : hp(hp_), tc(tc_)
  {
    b = 1 / (1 + 2 * tc);
    a = (2 * tc - 1) * b;
    set(out0);
  }
  void set(double o)
  {
    // the state that turns the input o into the output o
    w = hp ? ((2 * tc * b * o - o) / (2 * tc * b)) : o;
  }
  double in(double u)
  {
    w = a * w + (1 - a) * u;
    return hp ? 2 * tc * b * (u - w) : b * (u + 2 * tc * w);
  }
};
static float genTc(pbt::Src& s)
{
  return s.pick({1.0f, 0.5f, 3.0f, 10.0f, 60.0f, 0.2f, 0.1f}) * (s.flip() ? 1.0f : static_cast<float>(s.real(0.5, 2)));
}
PBT_FACET(filter_linear, 4, "random time constants, initial outputs and input histories against a double-precision first-order section, complement and range relations; non-trivial: at least 3 different inputs")
{
  pbt::Src& s = c.src;
  const float tc = genTc(s);
  float o0 = static_cast<float>(s.sym(5));
  tt::Filter lp(tt::Filter::FILTER_LPF, tc, o0), hp(tt::Filter::FILTER_HPF, tc, o0), lp0(tt::Filter::FILTER_LPF, tc, 0), hp0(tt::Filter::FILTER_HPF, tc, 0);
  PBT_CHECK(lp.get() == o0 && hp.get() == o0, "initial", "initial output is not the given one");
  RefFilter rl(false, tc, o0), rh(true, tc, o0);
  double lo = o0, hi = o0, mx = std::abs(o0);
  std::ostringstream log;
  log << "tc " << tc << " initial " << o0 << " inputs";
  const int n = s.irange(1, 40);
  int changes = 0;
  float u = o0;
  bool reset = false;
  for (int k = 0; k < n; ++k)
  {
    if (s.chance(2, 3))
    {
      u = static_cast<float>(s.sym(5));
      ++changes;
    }
    if (s.chance(1, 25))
    {
      o0 = static_cast<float>(s.sym(5));
      lp.set(o0);
      hp.set(o0);
      rl.set(o0);
      rh.set(o0);
      PBT_CHECK(lp.get() == o0 && hp.get() == o0, "set", "set does not define the output");
      lo = hi = o0;
      mx = std::max<double>(mx, std::abs(o0));
      reset = true;
      log << " set:" << o0;
    }
    log << " " << u;
    lo = std::min<double>(lo, u);
    hi = std::max<double>(hi, u);
    mx = std::max<double>(mx, std::abs(u));
    const float ol = lp.in(u), oh = hp.in(u);
    const double e = 2e-4 * (1 + mx);
    PBT_CHECK(ol == lp.get() && oh == hp.get(), "get", "get() differs from the last output: " << log.str());
    const double el = rl.in(u);
    PBT_CHECK(std::abs(ol - el) <= e, "low-pass", "low-pass gives " << ol << " expected " << el << ": " << log.str());
    const double eh = rh.in(u);
    PBT_CHECK(std::abs(oh - eh) <= e, "high-pass", "high-pass gives " << oh << " expected " << eh << ": " << log.str());
    if (tc >= 0.5)
      PBT_CHECK(ol >= lo - e && ol <= hi + e, "range", "low-pass output " << ol << " outside the range of its inputs: " << log.str());
    const float l0 = lp0.in(u), h0 = hp0.in(u);
    PBT_CHECK(std::abs(l0 + h0 - u) <= e, "complement", "low-pass " << l0 << " plus high-pass " << h0 << " is not the input " << u << ": " << log.str());
  }
  // a constant input is approached geometrically
  const int hold = static_cast<int>(std::log(1e-6) / std::log(std::max(0.1, std::abs((2 * tc - 1) / (2 * tc + 1.0))))) + 2;
  for (int k = 0; k < hold; ++k)
  {
    lp.in(u);
    hp.in(u);
  }
  PBT_CHECK(std::abs(lp.get() - u) <= 1e-3 * (1 + mx), "dc-gain-lp", "low-pass settles at " << lp.get() << " for " << u << ": " << log.str());
  PBT_CHECK(std::abs(hp.get()) <= 1e-3 * (1 + mx), "dc-gain-hp", "high-pass settles at " << hp.get() << ": " << log.str());
  c.describe([&](std::ostream& o) { o << log.str(); });
  c.labelIf(reset, "set in between");
  c.nontrivial(changes >= 3);
}
PBT_FACET(filter_angle, 2, "random angle histories: an angle-mode filter must act like a plain one on the signal unwrapped around its output, whatever full turns are added; non-trivial: inputs crossing +-pi")
{
  pbt::Src& s = c.src;
  const float tc = genTc(s);
  const float o0 = static_cast<float>(s.sym(M_PI));
  const auto type = s.chance(3, 4) ? tt::Filter::FILTER_LPF : tt::Filter::FILTER_HPF;
  tt::Filter a(type, tc, o0, true), b(type, tc, o0, true), plain(type, tc, o0, false);
  double ang = o0;
  std::ostringstream log;
  log << "tc " << tc << " initial " << o0 << " inputs";
  int wraps = 0;
  for (int k = s.irange(1, 30); k > 0; --k)
  {
    ang += s.sym(s.chance(1, 5) ? 3.0 : 0.8);
    const float u = static_cast<float>(std::remainder(ang, 2 * M_PI));
    if (std::abs(std::abs(std::remainder(static_cast<double>(u) - a.get(), 2 * M_PI)) - M_PI) < 0.02)
      continue;  // opposite to the output: both directions are right
    wraps += std::abs(u - a.get()) > M_PI;
    const int turns = s.irange(-2, 2);
    log << " " << u << "+" << turns;
    // the value congruent to u that is nearest to the current output
    double best = u;
    for (int t = -12; t <= 12; ++t)
      if (std::abs(u + t * 2 * M_PI - plain.get()) < std::abs(best - plain.get()))
        best = u + t * 2 * M_PI;
    const float e = plain.in(static_cast<float>(best));
    const float ra = a.in(u), rb = b.in(static_cast<float>(u + turns * 2 * M_PI));
    PBT_CHECK(std::abs(ra - e) < 2e-3, "unwrap", "angle filter gives " << ra << " expected " << e << ": " << log.str());
    PBT_CHECK(std::abs(rb - ra) < 2e-3, "full-turn", "adding full turns changes the output from " << ra << " to " << rb << ": " << log.str());
  }
  c.describe([&](std::ostream& o) { o << log.str(); });
  c.nontrivial(wraps > 0);
}

// ---------------------------------------------------------------- T07
using V2 = Eigen::Vector2d;
PBT_FACET(line_helpers, 4, "random points and segments against exact projections; non-trivial: projection strictly inside the segment")
{
  pbt::Src& s = c.src;
  const double m = s.pick({2.0, 30.0, 0.2});
  auto p = [&]() { return V2(s.sym(m, 1000), s.sym(m, 1000)); };
  const V2 a = p(), b = s.chance(1, 8) ? a : p();
  V2 q = p();
  const int special = s.weighted({6, 1, 1, 1, 1});
  if (special == 1)
    q = a;
  if (special == 2)
    q = b;
  if (special == 3)
    q = a + (b - a) * s.pick({0.5, 2.0, -1.0});
  if (special == 4)
    q = a + V2(-(b - a)[1], (b - a)[0]) * s.pick({1.0, -1.0, 0.3});
  c.describe([&](std::ostream& o) { o << "a (" << a.transpose() << ") b (" << b.transpose() << ") c (" << q.transpose() << ")"; });
  const double l2 = (b - a).squaredNorm();
  const double t = l2 > 0 ? (b - a).dot(q - a) / l2 : -1;
  const double tc = std::max(0.0, std::min(1.0, t));
  const double e = (a + tc * (b - a) - q).norm(), eps = 1e-5 * (m + 1);
  std::ostringstream in;
  in << " for a (" << a.transpose() << ") b (" << b.transpose() << ") c (" << q.transpose() << ")";
  PBT_CHECK(std::abs(tt::lineStripDistance(a, b, q) - e) <= eps, "strip-distance", tt::lineStripDistance(a, b, q) << " expected " << e << in.str());
  const float sd = tt::lineStripDistanceSigned(a, b, q);
  PBT_CHECK(std::abs(std::abs(sd) - e) <= eps, "signed-distance", sd << " expected magnitude " << e << in.str());
  if (e > eps && std::abs(t) > 1e-6)
    PBT_CHECK((sd < 0) == (t < 0), "signed-distance-sign", sd << " with position " << t << " along the segment" << in.str());
  const double cr = (b - a)[0] * (q - a)[1] - (b - a)[1] * (q - a)[0];
  PBT_CHECK(std::abs(tt::cross2(b - a, q - a) - cr) <= 1e-5 * (1 + std::abs(cr)), "cross", tt::cross2(b - a, q - a) << " expected " << cr);
  if (l2 > 1e-4 * m * m)
  {
    PBT_CHECK(std::abs(tt::lineDistance(a, b, q) - cr / std::sqrt(l2)) <= 100 * eps, "line-distance", tt::lineDistance(a, b, q) << in.str());
    const V2 pr = tt::projection2d(a, b, q);
    PBT_CHECK((pr - (a + t * (b - a))).norm() <= eps * (10 + std::abs(t)), "projection", pr.transpose() << in.str());
  }
  // curvature of the circle through three points, signed by the turning direction
  const double ab = (b - a).norm(), bc = (q - b).norm(), ca = (a - q).norm();
  if (ab > 0.01 * m && bc > 0.01 * m && ca > 0.01 * m)
  {
    const double k = 2 * cr / (ab * bc * ca);
    PBT_CHECK(std::abs(tt::curv3p(a, b, q) - k) <= 1e-4 * (1 + std::abs(k)), "curvature", tt::curv3p(a, b, q) << " expected " << k << in.str());
  }
  c.nontrivial(t > 0 && t < 1 && e > eps);
}
PBT_FACET(curvature_circle, 1, "three points on a random circle: the curvature is the inverse radius signed by direction; non-trivial: always")
{
  pbt::Src& s = c.src;
  const double r = s.real(0.3, 20), a0 = s.sym(M_PI), da = s.real(0.05, 1.5), db = s.real(0.05, 1.5);
  const int dir = s.flip() ? 1 : -1;
  const V2 ce(s.sym(5), s.sym(5));
  auto at = [&](double t) { return V2(ce + r * V2(std::cos(t), std::sin(t))); };
  const float k = tt::curv3p(at(a0), at(a0 + dir * da), at(a0 + dir * (da + db)));
  c.describe([&](std::ostream& o) { o << "radius " << r << " direction " << dir << " gives " << k; });
  PBT_CHECK(std::abs(k - dir / r) < 1e-3 * (1 + 1 / r), "circle", "radius " << r << " direction " << dir << " gives " << k);
  c.nontrivial();
}
template <class T>
static void avg(pbt::Ctx& c)
{
  pbt::Src& s = c.src;
  tt::Average<T> a;
  PBT_CHECK(static_cast<T>(a) == 0, "empty-average", "average of nothing is " << static_cast<T>(a));
  double sum = 0;
  const int n = s.irange(1, 30);
  std::ostringstream log;
  for (int k = 1; k <= n; ++k)
  {
    const T v = static_cast<T>(s.irange(-1000, 1000)) / 4;
    sum += v;
    a += v;
    log << " " << v;
    const double e = std::is_integral<T>() ? static_cast<double>(static_cast<long>(sum) / k) : sum / k;
    PBT_CHECK(std::abs(static_cast<double>(static_cast<T>(a)) - e) <= 1e-4 * (1 + std::abs(e)), "average", "average of" << log.str() << " is " << static_cast<T>(a));
  }
  c.describe([&](std::ostream& o) { o << "average of" << log.str(); });
  c.nontrivial(n > 2);
}
PBT_FACET(average, 1, "random sample sequences of int, float and double; non-trivial: more than two samples")
{
  switch (c.src.irange(0, 2))
  {
    case 0:
      return avg<double>(c);
    case 1:
      return avg<float>(c);
    default:
      return avg<int>(c);
  }
}
