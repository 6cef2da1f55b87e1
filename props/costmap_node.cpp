// C02, C03: the costmap_3d node as a whole.
#include <sim/world.h>
#include "costmap_gen.h"
#include <geometry_msgs/PolygonStamped.h>
#include <sensor_msgs/PointCloud.h>

int costmap_3d_main(int, char**);

namespace
{
XmlRpc::XmlRpcValue layerXml(const Spec::L& l, const std::string& name, const bool own_footprint, pbt::Src& s)
{
  XmlRpc::XmlRpcValue x;
  x["name"] = name;
  x["type"] = std::string(l.kind == 1 ? "Costmap3dLayerStopPropagation" : l.kind == 2 ? "Costmap3dLayerUnknownHandle" : l.cf.poly.empty() ? "Costmap3dLayerPlain" : "Costmap3dLayerFootprint");
  if (l.kind == 0)
  {
    if (own_footprint)
      x["footprint"] = toXml(l.cf.poly);
    x["linear_expand"] = l.cf.expand;
    x["linear_spread"] = l.cf.spread;
    if (l.cf.min_cost || s.flip())
      x["linear_spread_min_cost"] = l.cf.min_cost;
    if (!l.cf.poly.empty() && (l.cf.keep_unknown || s.flip()))
      x["keep_unknown"] = l.cf.keep_unknown;
    if (l.cf.mode == cc::OVERWRITE || s.flip())
      x["overlay_mode"] = std::string(l.cf.mode == cc::OVERWRITE ? "overwrite" : "max");
  }
  if (l.kind == 2)
    x["unknown_cost"] = l.unknown;
  return x;
}
}  // namespace

PBT_FACET(costmap_node, 3, "the node with any configuration of static and dynamic layers (or the single default one), base maps and overlays in any order, also before the first map: the published costmap with its updates equals a fresh layer chain of the latest inputs; non-trivial: two updates of different layers or contents")
{
  pbt::Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  sim::World& w = sim::world();
  w.setParam("/neonavigation_compatible", 1);
  w.node = "costmap_3d";
  const double res = s.pick({1.0, 0.1});
  Spec sp;
  sp.ang = s.pick({4, 16, 2, 1, 7});
  if (sp.ang != 16 || s.flip())
    w.setParam("/costmap_3d/ang_resolution", sp.ang);
  Config root = genConfig(s, res, true);
  if (root.poly.empty())
    root.poly = genPoly(s, res * s.real(0.3, 4, 30), true);
  w.setParam("/costmap_3d/footprint", toXml(root.poly));
  if (s.chance(1, 8))
  {
    root.expand = 0.2f;
    root.spread = 0.5f;
    root.min_cost = 0;
  }
  else
  {
    w.setParam("/costmap_3d/linear_expand", root.expand);
    w.setParam("/costmap_3d/linear_spread", root.spread);
    if (root.min_cost || s.flip())
      w.setParam("/costmap_3d/linear_spread_min_cost", root.min_cost);
  }
  sp.layers.push_back({0, root, 0});
  std::vector<std::string> topic = {"map"};
  std::vector<size_t> targets;
  const auto mid = [&](int n, const char* param)
  {
    XmlRpc::XmlRpcValue all;
    for (int k = 0; k < n; ++k)
    {
      Spec::L l{s.weighted({6, 1, 2}), genConfig(s, res, false), 0};
      if (l.kind == 2)
        l.unknown = s.irange(-1, 100);
      const bool own = s.flip();
      if (!l.cf.poly.empty() && !own)
        l.cf.poly = root.poly;
      if (l.cf.poly.empty())
        l.cf.keep_unknown = false;
      const std::string name = std::string(param) + std::to_string(k);
      all[k] = layerXml(l, name, own && !l.cf.poly.empty(), s);
      if (l.kind == 0)
        targets.push_back(sp.layers.size());
      sp.layers.push_back(l);
      topic.push_back(name);
    }
    w.setParam(std::string("/costmap_3d/") + param, all);
  };
  if (s.chance(1, 2))
    mid(s.irange(1, 2), "static_layers");
  const size_t st = sp.layers.size();
  sp.layers.push_back({3, Config(), 0});
  topic.push_back("");
  if (s.chance(2, 3))
    mid(s.irange(1, 3), "layers");
  else
  {
    Spec::L l{0, root, 0};
    l.cf.min_cost = 0;
    l.cf.mode = s.chance(1, 3) ? cc::OVERWRITE : cc::MAX;
    if (l.cf.mode == cc::OVERWRITE || s.flip())
      w.setParam("/costmap_3d/overlay_mode", std::string(l.cf.mode == cc::OVERWRITE ? "overwrite" : "max"));
    targets.push_back(sp.layers.size());
    sp.layers.push_back(l);
    topic.push_back("map_overlay");
  }
  const size_t last = sp.layers.size();
  sp.layers.push_back({4, Config(), 0});
  log << str(sp) << "\n";
  auto full = w.listen<costmap_cspace_msgs::CSpace3D>("/costmap");
  auto upd = w.listen<costmap_cspace_msgs::CSpace3DUpdate>("/costmap_update");
  auto foot = w.listen<geometry_msgs::PolygonStamped>("/costmap_3d/footprint");
  auto debug = w.listen<sensor_msgs::PointCloud>("/costmap_3d/debug");
  auto order = std::make_shared<std::vector<bool>>();  // of publication; true: an update
  w.taps.push_back([order](const std::string& t, const sim::AnyMsg&, bool)
                   { if (t == "/costmap" || t == "/costmap_update") order->push_back(t != "/costmap"); });
  w.start([] { char n[] = "n"; char* a[] = {n, nullptr}; return costmap_3d_main(1, a); });
  w.settle();
  PBT_CHECK(w.alive() && !w.crashed, "crash", "the node ended: " << w.crash_what);

  nav_msgs::OccupancyGrid::Ptr base;
  std::vector<nav_msgs::OccupancyGrid::Ptr> cur(sp.layers.size());
  std::vector<int8_t> mine;
  unsigned mw = 0, mh = 0;
  bool lag = false;
  int updates = 0;
  const int n = s.irange(1, 6);
  double bres = res;  // of the base map
  for (int k = 0; k < n; ++k)
  {
    size_t at = 0;
    full->clear();
    upd->clear();
    debug->clear();
    order->clear();
    size_t early = 0;
    if (!base && s.chance(1, 12))
    {
      log << "empty map\n";
      w.publish("/map", *makeGrid(0, 0, static_cast<float>(res), 0, 0));
      w.settle();
      PBT_CHECK(w.alive() && !w.crashed, "crash", "the node ended on an empty map: " << w.crash_what);
      continue;
    }
    if (targets.empty() || (k == 0 ? s.chance(2, 3) : s.chance(1, base ? 5 : 2)))
    {
      if (base && s.chance(1, 4))
        bres = res * s.pick({1.0, 0.95, 1.2, 0.7, 1.6});
      auto b = makeGrid(s.irange(1, 10), s.irange(1, 10), static_cast<float>(bres), bres * s.irange(-3, 3), bres * s.irange(-3, 3));
      fill(s, *b, true);
      b->header.stamp = ros::Time(k + 1);
      if (!base)
        for (auto& v : cur)
          early += v != nullptr;
      base = b;
      log << "base " << str(*b) << "\n";
      w.publish("/map", *b);
    }
    else
    {
      nav_msgs::OccupancyGrid::Ptr ref = base ? base : makeGrid(6, 6, static_cast<float>(res), 0, 0);
      at = s.pick(targets);
      auto v = genOverlay(s, s.chance(1, 4) ? res : bres, *ref, cur[at].get(), k + 1);
      cur[at] = v;
      log << topic[at] << " " << v->header.frame_id << " " << str(*v) << "\n";
      w.publish("/" + topic[at], *v);
    }
    w.settle();
    PBT_CHECK(w.alive() && !w.crashed, "crash", "the node ended: " << w.crash_what);
    if (!base)
    {
      PBT_CHECK(full->empty() && upd->empty(), "early", "published without a map");
      continue;
    }
    lag = false;
    PBT_CHECK(order->size() == full->size() + upd->size(), "harness", "");
    for (size_t e = 0, nf = 0, nu = 0; e < order->size(); ++e)
    {
      if (!(*order)[e])
      {
        const auto& f = (*full)[nf++];
        lag = false;
      mine = f.second.data;
      mw = f.second.info.width;
      mh = f.second.info.height;
      PBT_CHECK(mw == base->info.width && mh == base->info.height && static_cast<int>(f.second.info.angle) == sp.ang && mine.size() == size_t(mw) * mh * sp.ang, "full-size", mw << "x" << mh << "x" << f.second.info.angle);
      PBT_CHECK(f.second.info.linear_resolution == base->info.resolution && std::abs(f.second.info.angular_resolution - 2 * M_PI / sp.ang) < 1e-6 && f.second.info.origin.position.x == base->info.origin.position.x && f.second.info.origin.position.y == base->info.origin.position.y && f.second.header.frame_id == "map", "full-geometry", "");
        continue;
      }
      const auto& u = (*upd)[nu++].second;
      PBT_CHECK(u.data.size() == static_cast<size_t>(u.width) * u.height * u.angle, "update-size", u.width << "x" << u.height << "x" << u.angle << " with " << u.data.size() << " cells");
      lag = u.data.empty();
      if (lag)
        continue;
      ++updates;
      PBT_CHECK(u.x + u.width <= mw && u.y + u.height <= mh && u.yaw == 0 && static_cast<int>(u.angle) == sp.ang, "update-range", "update (" << u.x << "," << u.y << "," << u.yaw << ") " << u.width << "x" << u.height << "x" << u.angle);
      for (unsigned a = 0; a < u.angle; ++a)
        for (unsigned y = 0; y < u.height; ++y)
          for (unsigned x = 0; x < u.width; ++x)
            mine[(a * mh + y + u.y) * mw + x + u.x] = u.data[(a * u.height + y) * u.width + x];
    }
    // A fresh chain given the latest maps only
    auto fr = build(sp);
    fr->l[0]->setBaseMap(base);
    for (size_t i = 1; i < cur.size(); ++i)
      if (cur[i])
        fr->l[i]->processMapOverlay(cur[i], true);
    const bool below = at < st && !early;
    if (at < st)
      PBT_CHECK(full->size() >= 1, "full", "no costmap for a change of the static layers");
    if (!early)
      PBT_CHECK(full->size() == (below ? 1u : 0u) && upd->size() == (below ? 0u : 1u), "outputs", full->size() << " costmaps and " << upd->size() << " updates for a change of " << topic[at]);
    const size_t li = order->back() ? last : st;
    if (lag)
      continue;  // an overlay out of the map is not notified until the next update
    const auto& want = *fr->l[li]->getMapOverlay();
    PBT_CHECK(want.data.size() == mine.size(), "size", mine.size() << " cells of " << want.data.size());
    for (size_t j = 0; j < mine.size(); ++j)
      PBT_CHECK(mine[j] == want.data[j], "content", "cell (" << j % mw << "," << j / mw % mh << "," << j / mw / mh << ") is " << static_cast<int>(mine[j]) << " and costs " << static_cast<int>(want.data[j]) << " when computed from the latest maps");
    PBT_CHECK(!debug->empty(), "debug", "no debug cloud");
    if (!debug->empty())
    {
      size_t lethal = 0;
      for (auto v : want.data)
        lethal += v == 100;
      PBT_CHECK(debug->back().second.points.size() == lethal, "debug", debug->back().second.points.size() << " points for " << lethal << " lethal cells");
    }
  }
  if (s.chance(1, 4))
  {
    foot->clear();
    w.advance(2.5);
    PBT_CHECK(foot->size() == 2 || foot->size() == 3, "footprint-rate", foot->size() << " footprints in 2.5 s");
    const auto& p = foot->back().second;
    PBT_CHECK(p.polygon.points.size() >= root.poly.size(), "footprint", p.polygon.points.size() << " vertices");
    for (size_t i = 0; i < p.polygon.points.size(); ++i)
    {
      const P2 v = root.poly[i < root.poly.size() ? i : 0];  // closed by its first vertex
      PBT_CHECK(std::hypot(p.polygon.points[i].x - v.x, p.polygon.points[i].y - v.y) < 1e-6, "footprint", "vertex " << i);
    }
  }
  c.nontrivial(updates >= 2);
}
