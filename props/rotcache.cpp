// P09 (part): rotation table.
#include <cmath>

#include <planner_cspace/planner_3d/rotation_cache.h>

#include "pbt.h"

namespace pc = planner_cspace;
PBT_FACET(rotation_table, 1, "random resolutions, angle counts and ranges, also rebuilding a used table; every entry against double-precision geometry; non-trivial: more than one angle and range > 0")
{
  pbt::Src& s = c.src;
  pc::planner_3d::RotationCache rc;
  const int builds = s.irange(1, 2);
  for (int k = 0; k < builds; ++k)
  {
    const float lin = static_cast<float>(s.pick({0.1, 0.05, 1.0, 0.37}));
    const int angle = s.irange(1, 16);
    const float ang = static_cast<float>(2 * M_PI / angle);
    const int range = s.irange(0, 5);
    rc.reset(lin, ang, range);
    c.describe([&](std::ostream& o) { o << "linear " << lin << " angles " << angle << " range " << range << "; "; });
    pc::CyclicVecInt<3, 2> d;
    for (int a = 0; a < angle; ++a)
      for (d[0] = 0; d[0] <= 2 * range; ++d[0])
        for (d[1] = 0; d[1] <= 2 * range; ++d[1])
          for (d[2] = 0; d[2] < angle; ++d[2])
          {
            const auto& m = rc.getMotion(a, d);
            const double x = (d[0] - range) * static_cast<double>(lin), y = (d[1] - range) * static_cast<double>(lin), t = a * static_cast<double>(ang);
            const double ex = std::cos(t) * x + std::sin(t) * y, ey = -std::sin(t) * x + std::cos(t) * y;
            std::ostringstream in;
            in << " start angle " << a << " displacement (" << d[0] - range << "," << d[1] - range << "," << d[2] << ") of " << angle << " angles, cell " << lin;
            const double e = 1e-4 * (1 + lin * range);
            PBT_CHECK(std::abs(m[0] - ex) < e && std::abs(m[1] - ey) < e, "motion", "(" << m[0] << "," << m[1] << ") expected (" << ex << "," << ey << ")" << in.str());
            const double yaw = (d[2] - a) * static_cast<double>(ang);
            PBT_CHECK(std::abs(std::remainder(m[2] - yaw, 2 * M_PI)) < 1e-4, "motion-angle", m[2] << " expected " << yaw << in.str());
            PBT_CHECK(std::abs(m[2]) <= M_PI + 1e-4, "motion-angle-range", m[2] << in.str());
            // the circle tangent to the start heading: its centre is on the start's axle line at r1,
            // and on the end's axle line at r2
            const double sn = std::sin(yaw), cs = std::cos(yaw);
            if (std::abs(sn) < 0.05)
              continue;
            const auto& r = rc.getRadiuses(a, d);
            const double r1 = ey + ex * cs / sn;
            const double r2m = std::hypot(ex, ex * cs / sn);  // |ex / sin|
            PBT_CHECK(std::abs(r.first - r1) < 1e-2 * (1 + std::abs(r1)), "radius-start", r.first << " expected " << r1 << in.str());
            PBT_CHECK(std::abs(std::abs(r.second) - r2m) < 1e-2 * (1 + r2m), "radius-end", r.second << " expected magnitude " << r2m << in.str());
            if (std::abs(ex) > 10 * e)
              PBT_CHECK((r.second > 0) == (ex * sn > 0), "radius-sign", r.second << " for forward displacement " << ex << " and turn " << yaw << in.str());
          }
    c.nontrivial(angle > 1 && range > 0);
  }
}
