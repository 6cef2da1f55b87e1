// O01: scalar Kalman filter.
#include <cmath>
#include <limits>

#include <track_odometry/kalman_filter1.h>

#include "pbt.h"

using track_odometry::KalmanFilter1;

PBT_FACET(kalman_history, 1, "random sequences of set/predict/measure with zero, tiny, finite and infinite sigmas against extended-precision formulas; non-trivial: a measurement with both sigmas finite and positive")
{
  pbt::Src& s = c.src;
  const double INF = std::numeric_limits<double>::infinity();
  auto sig = [&](bool inf) -> double {
    switch (s.weighted({6, inf ? 2 : 0, 2, 1, 1}))
    {
      case 0:
        return s.real(0.001, 5.0);
      case 1:
        return INF;
      case 2:
        return 0.0;
      case 3:
        return 1e-200;
      default:
        return s.pick({1e-6, 1e4});
    }
  };
  std::ostringstream log;
  log.precision(17);
  KalmanFilter1 dflt;
  PBT_CHECK(dflt.x_ == 0 && std::isinf(dflt.sigma_), "default", "a default filter is not 'nothing known'");
  const double x0 = s.sym(10), s0 = sig(true);
  KalmanFilter1 f(x0, s0);
  long double x = x0, sg = s0;
  double smax = 0;
  log << "init " << x0 << " " << s0;
  for (int k = s.irange(1, 12); k > 0; --k)
  {
    const int op = s.weighted({1, 3, 6});
    if (op == 0)
    {
      if (s.flip())
      {
        f.set();
        x = 0;
        sg = INF;
        log << "; set()";
      }
      else
      {
        const double a = s.sym(10), b = sig(true);
        f.set(a, b);
        x = a;
        sg = b;
        log << "; set " << a << " " << b;
      }
    }
    else if (op == 1)
    {
      const double a = s.sym(2), b = sig(false);
      f.predict(a, b);
      x += a;
      sg += b;
      log << "; predict " << a << " " << b;
    }
    else
    {
      const double b = sig(true);
      const double a = s.chance(1, 10) && std::isinf(static_cast<double>(sg)) ? INF : s.sym(10);
      const double px = f.x_, ps = f.sigma_;
      f.measure(a, b);
      log << "; measure " << a << " " << b;
      if (std::isinf(b))
      {
        PBT_CHECK(f.x_ == px && f.sigma_ == ps, "ignored", "infinitely uncertain measurement changed the state: " << log.str());
      }
      else if (std::isinf(ps))
      {
        x = std::isinf(a) ? 0.0 : a;
        sg = b;
      }
      else
      {
        smax = ps;
        const long double v = sg * sg + static_cast<long double>(b) * b;
        // nothing but certainty on both sides: the estimate stays between both
        const long double kt = v > 0 ? sg * sg / v : 0.0L;
        const bool defined = v > 0 && (static_cast<double>(sg) == 0 || static_cast<double>(sg) > 1e-150 || b > 1e-150);
        PBT_CHECK(std::isfinite(f.x_) && std::isfinite(f.sigma_), "not-finite", "estimate " << f.x_ << " sigma " << f.sigma_ << " after " << log.str());
        const double lo = std::min(px, a), hi = std::max(px, a), e = 1e-12 * (1 + std::abs(px) + std::abs(a));
        PBT_CHECK(f.x_ >= lo - e && f.x_ <= hi + e, "not-between", "estimate " << f.x_ << " not between prior " << px << " and measurement " << a << ": " << log.str());
        PBT_CHECK(f.sigma_ <= ps && f.sigma_ >= 0, "gained-uncertainty", "sigma " << ps << " became " << f.sigma_ << ": " << log.str());
        if (defined)
        {
          x = x + kt * (a - x);
          sg = (1.0L - kt) * sg;
        }
        else
        {
          x = f.x_;
          sg = f.sigma_;
        }
        c.nontrivial(ps > 0 && b > 0 && defined);
      }
    }
    PBT_CHECK(std::abs(f.x_ - static_cast<double>(x)) <= 1e-9 * (1 + std::abs(static_cast<double>(x))), "estimate", "estimate " << f.x_ << " expected " << static_cast<double>(x) << " after " << log.str());
    if (std::isinf(static_cast<double>(sg)))
      smax = 0;
    if (std::isinf(static_cast<double>(sg)))
      PBT_CHECK(std::isinf(f.sigma_), "sigma", "sigma " << f.sigma_ << " expected infinite after " << log.str());
    else
      PBT_CHECK(std::abs(f.sigma_ - static_cast<double>(sg)) <= 1e-9 * static_cast<double>(sg) + 1e-14 * smax, "sigma", "sigma " << f.sigma_ << " expected " << static_cast<double>(sg) << " after " << log.str());
    // each step is judged from the state the filter itself reported
    x = f.x_;
    sg = f.sigma_;
  }
  c.describe([&](std::ostream& o) { o << log.str(); });
}
