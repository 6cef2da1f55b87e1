// Generators and reference geometry of configuration-space layers.
#pragma once
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>

#include <costmap_cspace/costmap_3d.h>
#include <costmap_cspace/pointcloud_accumulator.h>

#include "pbt.h"

namespace cc = costmap_cspace;

namespace
{
struct P2
{
  double x, y;
};
using Poly = std::vector<P2>;

std::string str(const Poly& p)
{
  std::ostringstream o;
  for (auto& v : p)
    o << "(" << v.x << "," << v.y << ")";
  return o.str();
}
// A simple polygon: star-shaped about a centre, so edges never cross.
Poly genPoly(pbt::Src& s, const double r, const bool any)
{
  Poly p;
  P2 c{0, 0};
  if (any && s.chance(1, 4))
    c = P2{s.sym(r, 20), s.sym(r, 20)};
  const int shape = s.weighted({3, 3, 3});
  if (shape == 0)  // box, maybe long and thin
  {
    const double l = r * s.real(0.2, 1, 20), w = r * s.real(0.1, 1, 20), off = l * s.sym(0.9, 10);
    p = Poly{{off + l, w}, {off + l, -w}, {off - l, -w}, {off - l, w}};
  }
  else if (shape == 1)  // triangle
    p = Poly{{r, 0}, {-r * s.real(0.1, 0.8, 10), -r * s.real(0.1, 1, 10)}, {-r * s.real(0.1, 0.8, 10), r * s.real(0.1, 1, 10)}};
  else
  {
    const int n = s.irange(3, 8);
    for (int i = 0; i < n; ++i)
    {
      const double a = 2 * M_PI * (i + s.real(0, 0.8, 10)) / n, d = r * s.real(0.15, 1, 20);
      p.push_back(P2{d * std::cos(a), d * std::sin(a)});
    }
  }
  const bool rev = s.flip();
  for (auto& v : p)
  {
    // values a float holds exactly
    v.x = static_cast<float>(v.x + c.x);
    v.y = static_cast<float>(v.y + c.y);
  }
  if (rev)
    std::reverse(p.begin(), p.end());
  return p;
}
XmlRpc::XmlRpcValue toXml(const Poly& p)
{
  XmlRpc::XmlRpcValue x;
  for (size_t i = 0; i < p.size(); ++i)
  {
    x[i][0] = p[i].x;
    x[i][1] = p[i].y;
  }
  return x;
}
// Distance of q to the polygon's edges, negative inside.
double signedDist(const Poly& p, const P2 q)
{
  double d = 1e9;
  bool in = false;
  for (size_t i = 0; i < p.size(); ++i)
  {
    const P2 a = p[i], b = p[(i + 1) % p.size()];
    const double ux = b.x - a.x, uy = b.y - a.y, l2 = ux * ux + uy * uy;
    const double t = l2 > 0 ? std::max(0.0, std::min(1.0, ((q.x - a.x) * ux + (q.y - a.y) * uy) / l2)) : 0;
    d = std::min(d, std::hypot(a.x + t * ux - q.x, a.y + t * uy - q.y));
    if ((a.y <= q.y) != (b.y <= q.y) && q.x < a.x + ux * (q.y - a.y) / uy)
      in = !in;
  }
  return in ? -d : d;
}

struct Config
{
  Poly poly;  // empty: a point (plain layer)
  double expand = 0, spread = 0;
  int min_cost = 0;
  bool keep_unknown = false;
  cc::MapOverlayMode mode = cc::MAX;
  std::string str() const
  {
    std::ostringstream o;
    o << "{footprint " << ::str(poly) << " expand " << expand << " spread " << spread << " min " << min_cost << (keep_unknown ? " keep_unknown" : "")
      << (mode == cc::MAX ? " max" : " overwrite") << "}";
    return o.str();
  }
};
Config genConfig(pbt::Src& s, const double res, const bool root)
{
  Config c;
  if (!s.chance(1, 4))
    c.poly = genPoly(s, res * s.real(0.3, 4, 30), true);
  c.expand = s.chance(1, 2) ? static_cast<float>(res * s.real(0, 2, 8)) : 0;
  c.spread = s.chance(1, 2) ? static_cast<float>(res * s.real(0, 3, 12)) : 0;
  c.min_cost = s.chance(1, 3) ? s.irange(0, 99) : 0;
  if (!root)
  {
    c.keep_unknown = s.chance(1, 3);
    c.mode = s.chance(1, 3) ? cc::OVERWRITE : cc::MAX;
  }
  return c;
}
cc::Costmap3dLayerFootprint::Ptr addFootprint(cc::Costmap3d& cm, const Config& c, const bool root)
{
  cc::Costmap3dLayerFootprint::Ptr l;
  if (c.poly.empty())
    l = root ? std::static_pointer_cast<cc::Costmap3dLayerFootprint>(cm.addRootLayer<cc::Costmap3dLayerPlain>()) :
               std::static_pointer_cast<cc::Costmap3dLayerFootprint>(cm.addLayer<cc::Costmap3dLayerPlain>(c.mode));
  else
    l = root ? cm.addRootLayer<cc::Costmap3dLayerFootprint>() : cm.addLayer<cc::Costmap3dLayerFootprint>(c.mode);
  XmlRpc::XmlRpcValue x;
  x["linear_expand"] = c.expand;
  x["linear_spread"] = c.spread;
  x["linear_spread_min_cost"] = c.min_cost;
  if (!c.poly.empty())
    x["footprint"] = toXml(c.poly);
  // plain layers take this setting through the setter only
  if (!c.poly.empty())
    x["keep_unknown"] = c.keep_unknown;
  l->loadConfig(x);
  if (c.poly.empty())
    l->setKeepUnknown(c.keep_unknown);
  return l;
}

// Cost a single obstacle gives at each offset of the robot, as a range (lo, hi).
struct Template
{
  int r = 0, ang = 0;
  std::vector<std::pair<int, int>> t;
  std::pair<int, int> at(int x, int y, int a) const
  {
    if (std::abs(x) > r || std::abs(y) > r)
      return {0, 0};
    return t[(a * (2 * r + 1) + y + r) * (2 * r + 1) + x + r];
  }
};
Template makeTemplate(const Config& c, const double res, const int ang)
{
  Template t;
  double rad = 0;
  for (auto& v : c.poly)
    rad = std::max(rad, std::hypot(v.x, v.y));
  t.ang = ang;
  t.r = static_cast<int>(std::ceil((rad + c.expand + c.spread) / res)) + 1;
  const double tol = 2e-5 * (rad + t.r * res);
  auto f = [&](double d, double slack) -> int {
    if (d < c.expand)
      return 100;
    if (d < c.expand + c.spread)
      return static_cast<int>(100 - (d - c.expand) * (100 - c.min_cost) / c.spread + slack);
    return 0;
  };
  for (int a = 0; a < ang; ++a)
  {
    const double yaw = a * 2 * M_PI / ang;
    for (int y = -t.r; y <= t.r; ++y)
      for (int x = -t.r; x <= t.r; ++x)
      {
        // the obstacle at the origin seen from the robot
        const double ox = -x * res, oy = -y * res;
        const P2 q{std::cos(yaw) * ox + std::sin(yaw) * oy, -std::sin(yaw) * ox + std::cos(yaw) * oy};
        double d = c.poly.empty() ? std::hypot(ox, oy) : signedDist(c.poly, q);
        int lo, hi;
        if (c.poly.empty() && x == 0 && y == 0)
          lo = hi = 100;
        else if (d <= -tol)
          lo = hi = 100;
        else
        {
          hi = d - tol < 0 ? 100 : f(d - tol, 1e-3);
          lo = f(std::max(0.0, d + tol), -1e-3);
          if (std::abs(d - c.expand - c.spread) < res / 100 + tol)
          {
            hi = std::max(hi, c.min_cost);
            lo = std::min(lo, d > c.expand + c.spread - tol ? 0 : lo);
          }
        }
        t.t.push_back({lo, hi});
      }
  }
  return t;
}

nav_msgs::OccupancyGrid::Ptr makeGrid(int w, int h, double res, double ox, double oy)
{
  nav_msgs::OccupancyGrid::Ptr m(new nav_msgs::OccupancyGrid);
  m->header.frame_id = "map";
  m->info.width = w;
  m->info.height = h;
  m->info.resolution = res;
  m->info.origin.position.x = ox;
  m->info.origin.position.y = oy;
  m->info.origin.orientation.w = 1;
  m->data.assign(w * h, 0);
  return m;
}
// Single cells, walls, blocks, diagonals and noise.
void fill(pbt::Src& s, nav_msgs::OccupancyGrid& m, const bool unknown)
{
  const int w = m.info.width, h = m.info.height;
  if (unknown && s.chance(1, 4))
    m.data.assign(w * h, -1);
  auto val = [&]() -> int8_t { return s.weighted({6, 2, 1}) == 0 ? 100 : s.chance(1, 4) ? (unknown ? -1 : 0) : s.irange(1, 99); };
  auto put = [&](int x, int y, int8_t v) {
    if (x >= 0 && y >= 0 && x < w && y < h)
      m.data[y * w + x] = v;
  };
  const int n = s.irange(0, 5);
  for (int k = 0; k < n; ++k)
  {
    const int x = s.irange(0, w - 1), y = s.irange(0, h - 1);
    const int8_t v = val();
    switch (s.irange(0, 4))
    {
      case 0:
        put(x, y, v);
        break;
      case 1:  // wall
      {
        const bool hor = s.flip();
        for (int i = s.irange(1, std::max(w, h)); i > 0; --i)
          put(hor ? x + i - 1 : x, hor ? y : y + i - 1, v);
        break;
      }
      case 2:  // block
      {
        const int bw = s.irange(1, 5), bh = s.irange(1, 5);
        for (int j = 0; j < bh; ++j)
          for (int i = 0; i < bw; ++i)
            put(x + i, y + j, v);
        break;
      }
      case 3:  // diagonal
        for (int i = s.irange(1, 8), d = s.flip() ? 1 : -1; i > 0; --i)
          put(x + i - 1, y + d * (i - 1), v);
        break;
      case 4:  // noise
        for (int i = s.irange(1, 20); i > 0; --i)
          put(s.irange(0, w - 1), s.irange(0, h - 1), val());
        break;
    }
  }
}
std::string str(const nav_msgs::OccupancyGrid& m)
{
  std::ostringstream o;
  o << m.info.width << "x" << m.info.height << " res " << m.info.resolution << " origin (" << m.info.origin.position.x << "," << m.info.origin.position.y << ") [";
  for (size_t y = 0; y < m.info.height; ++y)
  {
    for (size_t x = 0; x < m.info.width; ++x)
    {
      const int v = m.data[y * m.info.width + x];
      if (v == 0)
        o << ".";
      else if (v < 0)
        o << "?";
      else if (v == 100)
        o << "#";
      else
        o << "<" << v << ">";
    }
    o << "/";
  }
  o << "]";
  return o.str();
}
// Model of one configuration-space map: every cell a range of acceptable costs.
struct Model
{
  int w, h, ang;
  std::vector<std::pair<int, int>> c;
  std::pair<int, int>& at(int x, int y, int a) { return c[(a * h + y) * w + x]; }
};
// one overlay of the same resolution on a map that holds `in`; (dx, dy) in cells
Model overlayModel(const Model& in, const nav_msgs::OccupancyGrid& m, const Template& t, const Config& cf, const int rmax, const int dx, const int dy)
{
  Model o = in;
  const int mw = m.info.width, mh = m.info.height;
  auto inside = [&](int x, int y) { return x >= 0 && y >= 0 && x < o.w && y < o.h; };
  for (int a = 0; a < o.ang; ++a)
  {
    if (cf.mode == cc::OVERWRITE)
      for (int y = rmax; y < mh - rmax; ++y)
        for (int x = rmax; x < mw - rmax; ++x)
          if (m.data[y * mw + x] >= 0 && inside(x + dx, y + dy))
            o.at(x + dx, y + dy, a) = {-1, -1};
    std::vector<P2> unknown;
    if (cf.keep_unknown)
      for (int y = 0; y < mh; ++y)
        for (int x = 0; x < mw; ++x)
          if (m.data[y * mw + x] < 0 && inside(x + dx, y + dy) && o.at(x + dx, y + dy, a).second < 0)
            unknown.push_back(P2{static_cast<double>(x + dx), static_cast<double>(y + dy)});
    for (int y = 0; y < mh; ++y)
      for (int x = 0; x < mw; ++x)
      {
        const int v = m.data[y * mw + x];
        if (v < 0 || !inside(x + dx, y + dy))
          continue;
        if (v == 0)
        {
          auto& p = o.at(x + dx, y + dy, a);
          p.first = std::max(p.first, 0);
          p.second = std::max(p.second, 0);
          continue;
        }
        for (int y2 = y + dy - t.r; y2 <= y + dy + t.r; ++y2)
          for (int x2 = x + dx - t.r; x2 <= x + dx + t.r; ++x2)
          {
            if (!inside(x2, y2))
              continue;
            const auto k = t.at(x2 - x - dx, y2 - y - dy, a);
            auto& p = o.at(x2, y2, a);
            if (k.first * v / 100 > 0)
              p.first = std::max(p.first, k.first * v / 100);
            if (k.second * v / 100 > 0)
              p.second = std::max(p.second, k.second * v / 100);
          }
      }
    for (auto& u : unknown)
      o.at(u.x, u.y, a) = {-1, -1};
  }
  return o;
}
// base: root layer semantics (an occupied cell which the robot there does not cover stays without a cost)
Model rootModel(const nav_msgs::OccupancyGrid& m, const Template& t)
{
  Model o;
  o.w = m.info.width;
  o.h = m.info.height;
  o.ang = t.ang;
  o.c.assign(o.w * o.h * o.ang, {-1, -1});
  o = overlayModel(o, m, t, Config(), 0, 0, 0);
  for (int a = 0; a < o.ang; ++a)
    for (int i = 0; i < o.w * o.h; ++i)
      if (m.data[i] < 0)
        o.c[a * o.w * o.h + i] = {-1, -1};
  return o;
}
// keep-unknown decisions on a cell whose cost is ambiguous cannot be predicted
bool ambiguousUnknown(const Model& m)
{
  for (auto& p : m.c)
    if (p.first < 0 && p.second >= 0)
      return true;
  return false;
}
void compare(pbt::Ctx& c, const Model& m, const cc::CSpace3DMsg& got, const std::string& tag, const std::string& in)
{
  PBT_CHECK(static_cast<int>(got.info.width) == m.w && static_cast<int>(got.info.height) == m.h && static_cast<int>(got.info.angle) == m.ang && static_cast<int>(got.data.size()) == m.w * m.h * m.ang,
            tag + "-size", "costmap of " << got.info.width << "x" << got.info.height << "x" << got.info.angle << in);
  for (int a = 0; a < m.ang; ++a)
    for (int y = 0; y < m.h; ++y)
      for (int x = 0; x < m.w; ++x)
      {
        const int v = got.getCost(x, y, a);
        const auto p = m.c[(a * m.h + y) * m.w + x];
        if (p.first == 100)
          PBT_CHECK(v == 100, tag + "-lethal", "cell (" << x << "," << y << "," << a << ") costs " << v << " although the robot there hits an obstacle" << in);
        PBT_CHECK(v >= p.first && v <= p.second, tag + "-cost", "cell (" << x << "," << y << "," << a << ") costs " << v << " expected " << p.first << ".." << p.second << in);
      }
}
}  // namespace
namespace
{
struct Spec
{
  struct L
  {
    int kind;  // 0 footprint 1 stop 2 unknown 3 static output 4 update output
    Config cf;
    int unknown;
  };
  std::vector<L> layers;  // [0] is the root
  int ang;
};
struct Chain
{
  std::unique_ptr<cc::Costmap3d> cm;
  std::vector<cc::Costmap3dLayerBase::Ptr> l;
  std::function<void(size_t, const cc::CSpace3DMsg&)> on_full;
  std::function<void(size_t, const cc::CSpace3DMsg&, const costmap_cspace_msgs::CSpace3DUpdate&)> on_update;
};
std::unique_ptr<Chain> build(const Spec& sp)
{
  std::unique_ptr<Chain> ch(new Chain);
  Chain* p = ch.get();
  ch->cm.reset(new cc::Costmap3d(sp.ang));
  for (size_t i = 0; i < sp.layers.size(); ++i)
  {
    const auto& d = sp.layers[i];
    if (d.kind == 0)
      ch->l.push_back(addFootprint(*ch->cm, d.cf, i == 0));
    else if (d.kind == 1)
      ch->l.push_back(ch->cm->addLayer<cc::Costmap3dLayerStopPropagation>());
    else if (d.kind == 2)
    {
      auto u = ch->cm->addLayer<cc::Costmap3dLayerUnknownHandle>();
      XmlRpc::XmlRpcValue x;
      x["unknown_cost"] = d.unknown;
      u->loadConfig(x);
      ch->l.push_back(u);
    }
    else if (d.kind == 3)
    {
      auto o = ch->cm->addLayer<cc::Costmap3dStaticLayerOutput>();
      o->setHandler([p, i](const cc::CSpace3DMsg::Ptr& m) { if (p->on_full) p->on_full(i, *m); return true; });
      ch->l.push_back(o);
    }
    else
    {
      auto o = ch->cm->addLayer<cc::Costmap3dUpdateLayerOutput>();
      o->setHandler([p, i](const cc::CSpace3DMsg::Ptr& m, const costmap_cspace_msgs::CSpace3DUpdate::Ptr& u) { if (p->on_update) p->on_update(i, *m, *u); return true; });
      ch->l.push_back(o);
    }
  }
  return ch;
}
Spec genSpec(pbt::Src& s, const double res, const bool outputs)
{
  Spec sp;
  sp.ang = s.pick({2, 4, 1});
  sp.layers.push_back({0, genConfig(s, res, true), 0});
  auto mid = [&](int n) {
    for (int k = 0; k < n; ++k)
    {
      const int kind = s.weighted({6, 1, 2});
      sp.layers.push_back({kind, genConfig(s, res, false), kind == 2 ? s.irange(-1, 100) : 0});
    }
  };
  if (outputs)
  {
    mid(s.irange(0, 2));
    sp.layers.push_back({3, Config(), 0});
    mid(s.irange(1, 2));
    sp.layers.push_back({4, Config(), 0});
  }
  else
    mid(s.irange(1, 3));
  return sp;
}
std::string str(const Spec& sp)
{
  std::ostringstream o;
  o << " headings " << sp.ang << " layers";
  for (auto& l : sp.layers)
    o << " " << (l.kind == 0 ? l.cf.str() : l.kind == 1 ? std::string("stop") : l.kind == 2 ? "unknown=" + std::to_string(l.unknown) : l.kind == 3 ? std::string("static-output") : std::string("update-output"));
  return o.str();
}
nav_msgs::OccupancyGrid::Ptr genOverlay(pbt::Src& s, const double res, const nav_msgs::OccupancyGrid& base, const nav_msgs::OccupancyGrid* prev, const int seq)
{
  nav_msgs::OccupancyGrid::Ptr v;
  if (prev && s.chance(1, 2))
  {
    v.reset(new nav_msgs::OccupancyGrid(*prev));
    if (s.flip())
    {
      v->info.origin.position.x += res * s.irange(-3, 3);
      v->info.origin.position.y += res * s.irange(-3, 3);
    }
    if (s.flip())
    {
      v->data.assign(v->data.size(), 0);
      fill(s, *v, true);
    }
  }
  else
  {
    const double scale = s.chance(1, 6) ? s.pick({2.0, 0.5}) : 1.0;
    v = makeGrid(s.irange(1, 12), s.irange(1, 12), static_cast<float>(res * scale), base.info.origin.position.x + res * s.irange(-8, 14), base.info.origin.position.y + res * s.irange(-8, 14));
    fill(s, *v, true);
  }
  v->header.frame_id = s.chance(1, 20) ? "odom" : "map";
  v->header.stamp = ros::Time(seq);
  return v;
}
}  // namespace
