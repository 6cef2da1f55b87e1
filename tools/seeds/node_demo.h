
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <limits>
#include <string>
#include <vector>
#include <sim/world.h>
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
static sim::World& W() { return sim::world(); }
static void sendTf(const char* parent, const char* child, double x, double y, double a, bool fixed = false)
{
  const double q[4] = {0, 0, std::sin(a / 2), std::cos(a / 2)}, p[3] = {x, y, 0};
  W().setTf(parent, child, W().now, p, q, fixed);
}
static void run(int (*entry)(int, char**))
{
  W().start([entry]
            { char n[] = "n"; char* a[] = {n, nullptr}; return entry(1, a); });
  W().settle();
}
template <class Q>
static void yaw(Q& q, double a)
{
  q.x = q.y = 0;
  q.z = std::sin(a / 2);
  q.w = std::cos(a / 2);
}
// ---------------------------------------------------------------
