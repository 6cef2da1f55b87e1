// C01-C06: configuration-space layers, footprint polygon, cloud accumulator.
#include "costmap_gen.h"


// ---------------------------------------------------------------- C01
PBT_FACET(base_map, 4, "random footprints (long, offset, concave), margins, maps with walls, blocks, diagonals and graded costs: every cell against the maximum over all obstacles of exact footprint geometry; non-trivial: an obstacle cluster and a lethal cell outside of it")
{
  pbt::Src& s = c.src;
  const double res = s.pick({0.1, 0.05, 1.0});
  const Config cf = genConfig(s, res, true);
  const int ang = s.pick({4, 1, 8, 16, 5});
  auto m = makeGrid(s.irange(1, 16), s.irange(1, 16), static_cast<float>(res), s.sym(5, 50), s.sym(5, 50));
  fill(s, *m, true);
  m->header.stamp = ros::Time(s.irange(1, 1000));
  cc::Costmap3d cm(ang);
  auto root = addFootprint(cm, cf, true);
  if (s.chance(1, 3))
  {
    // the earlier map may have another resolution
    auto m0 = makeGrid(s.irange(1, 16), s.irange(1, 16), static_cast<float>(res * s.pick({1.0, 0.95, 1.2, 0.7, 1.6})), 0, 0);
    fill(s, *m0, true);
    root->setBaseMap(m0);
  }
  root->setBaseMap(m);
  std::string in;
  {
    std::ostringstream o;
    o << " for layer " << cf.str() << " headings " << ang << " map " << str(*m);
    in = o.str();
  }
  c.describe([&](std::ostream& o) { o << in; });
  const auto& got = *root->getMap();
  PBT_CHECK(got.info.linear_resolution == m->info.resolution && std::abs(got.info.angular_resolution - 2 * M_PI / ang) < 1e-6 &&
                got.info.origin.position.x == m->info.origin.position.x && got.info.origin.position.y == m->info.origin.position.y && got.header.frame_id == "map" && got.header.stamp == m->header.stamp,
            "meta", "costmap geometry differs from that of the map" << in);
  const Template t = makeTemplate(cf, m->info.resolution, ang);
  const Model md = rootModel(*m, t);
  compare(c, md, got, "base", in);
  compare(c, md, *root->getMapOverlay(), "base-overlay", in);
  bool cluster = false, far = false;
  for (size_t i = 0; i < m->data.size(); ++i)
  {
    cluster |= m->data[i] > 0 && i % m->info.width && m->data[i - 1] > 0;
    for (int a = 0; a < ang; ++a)
      far |= m->data[i] == 0 && md.c[a * m->data.size() + i].first == 100;
  }
  c.nontrivial(cluster && far);
}

// ---------------------------------------------------------------- C04
PBT_FACET(overlay_modes, 4, "one overlay (any offset, unknown/free/graded cells, keep-unknown, max/overwrite) on a random base with optional stop-propagation and unknown-handling layers against a cell-by-cell model; non-trivial: unknown and occupied cells in both maps and a partial overlap")
{
  pbt::Src& s = c.src;
  const double res = s.pick({1.0, 0.1});
  const int ang = s.pick({4, 1, 6});
  const Config rc = genConfig(s, res, true), oc = genConfig(s, res, false);
  const double ox = res * s.irange(-5, 5), oy = res * s.irange(-5, 5);
  auto m = makeGrid(s.irange(1, 14), s.irange(1, 14), static_cast<float>(res), ox, oy);
  fill(s, *m, true);
  const int dx = s.irange(-8, 12), dy = s.irange(-8, 12);
  auto v = makeGrid(s.irange(1, 16), s.irange(1, 16), static_cast<float>(res), ox + res * (dx + s.sym(0.3, 10)), oy + res * (dy + s.sym(0.3, 10)));
  fill(s, *v, true);
  const bool stop = s.chance(1, 4);
  const int unknown = s.chance(1, 3) ? s.irange(-1, 100) : -2;
  const bool wrong_frame = s.chance(1, 15);
  if (wrong_frame)
    v->header.frame_id = "odom";
  std::string in;
  {
    std::ostringstream o;
    o << " for base " << rc.str() << " overlay " << oc.str() << " headings " << ang << (stop ? " stop" : "") << " unknown " << unknown << (wrong_frame ? " wrong frame" : "") << " map " << str(*m) << " overlaid at (" << dx << "," << dy << ") by " << str(*v);
    in = o.str();
  }
  c.describe([&](std::ostream& o) { o << in; });
  cc::Costmap3d cm(ang);
  auto root = addFootprint(cm, rc, true);
  if (stop)
    cm.addLayer<cc::Costmap3dLayerStopPropagation>();
  auto over = addFootprint(cm, oc, false);
  cc::Costmap3dLayerUnknownHandle::Ptr uh;
  if (unknown > -2)
  {
    uh = cm.addLayer<cc::Costmap3dLayerUnknownHandle>();
    XmlRpc::XmlRpcValue x;
    x["unknown_cost"] = unknown;
    uh->loadConfig(x);
  }
  root->setBaseMap(m);
  over->processMapOverlay(v, true);
  const Template rt = makeTemplate(rc, m->info.resolution, ang), ot = makeTemplate(oc, m->info.resolution, ang);
  Model md = rootModel(*m, rt);
  compare(c, md, *root->getMap(), "below", in);
  if (stop)
    for (auto& p : md.c)
      p = {-1, -1};
  if (!wrong_frame)
    md = overlayModel(md, *v, ot, oc, over->getRangeMax(), dx, dy);
  compare(c, md, *over->getMapOverlay(), "overlay", in);
  if (uh && !ambiguousUnknown(md))
  {
    for (auto& p : md.c)
      if (p.second < 0)
        p = {unknown, unknown};
    compare(c, md, *uh->getMapOverlay(), "unknown", in);
  }
  bool bo = false, bu = false, vo = false, vu = false;
  for (auto x : m->data)
  {
    bo |= x > 0;
    bu |= x < 0;
  }
  for (auto x : v->data)
  {
    vo |= x > 0;
    vu |= x < 0;
  }
  c.labelIf(oc.mode == cc::OVERWRITE, "overwrite");
  c.labelIf(oc.keep_unknown, "keep unknown");
  c.labelIf(stop, "stop propagation");
  c.nontrivial(bo && bu && vo && vu);
}

// ---------------------------------------------------------------- C02, C03
PBT_FACET(history, 4, "random layer chains and histories of base maps (also resized or of another resolution), overlays (moving, changing, partly outside, other resolution, wrong frame, deferred): all layers equal a fresh chain given only the current maps; non-trivial: an overlay replaced by a different one in a chain of at least three layers or with range")
{
  pbt::Src& s = c.src;
  const double res = s.pick({1.0, 0.1});
  const Spec sp = genSpec(s, res, false);
  auto ch = build(sp);
  std::ostringstream log;
  log << str(sp);
  nav_msgs::OccupancyGrid::Ptr base;
  double bres = res;
  std::vector<nav_msgs::OccupancyGrid::Ptr> cur(sp.layers.size());
  std::vector<bool> deferred(sp.layers.size(), false);
  std::vector<size_t> targets;
  for (size_t i = 1; i < sp.layers.size(); ++i)
    if (sp.layers[i].kind == 0)
      targets.push_back(i);
  int replaced = 0;
  const int n = s.irange(2, 6);
  for (int k = 0; k < n; ++k)
  {
    size_t at = 0;
    if (k == 0 || s.chance(1, 5) || targets.empty())
    {
      const bool same = base && s.flip();
      if (base && s.chance(1, 4))
        bres = res * s.pick({1.0, 0.95, 1.2, 0.7, 1.6});
      auto b = makeGrid(same ? base->info.width : s.irange(1, 12), same ? base->info.height : s.irange(1, 12), static_cast<float>(bres), bres * s.irange(-3, 3), bres * s.irange(-3, 3));
      fill(s, *b, true);
      b->header.stamp = ros::Time(k + 1);
      base = b;
      log << "; base " << str(*b);
      ch->l[0]->setBaseMap(b);
    }
    else
    {
      at = s.pick(targets);
      auto v = genOverlay(s, s.chance(1, 4) ? res : bres, *base, cur[at].get(), k + 1);
      replaced += cur[at] != nullptr;
      cur[at] = v;
      const bool defer = s.chance(1, 8);
      log << "; layer " << at << (defer ? " deferred " : " ") << v->header.frame_id << " " << str(*v);
      std::static_pointer_cast<cc::Costmap3dLayerBase>(ch->l[at])->processMapOverlay(v, !defer);
      if (defer)
      {
        deferred[at] = true;
        continue;
      }
    }
    for (size_t i = at; i < deferred.size(); ++i)
      deferred[i] = false;
    bool pend = false;
    for (bool d : deferred)
      pend |= d;
    if (pend)
      continue;
    // fresh chain
    auto fr = build(sp);
    fr->l[0]->setBaseMap(base);
    for (size_t i = 1; i < cur.size(); ++i)
      if (cur[i])
        fr->l[i]->processMapOverlay(cur[i], true);
    for (size_t i = 0; i < sp.layers.size(); ++i)
    {
      const auto &g = *ch->l[i]->getMapOverlay(), &w = *fr->l[i]->getMapOverlay();
      PBT_CHECK(g.info.width == w.info.width && g.info.height == w.info.height && g.info.angle == w.info.angle && g.data.size() == w.data.size(), "history-size", "layer " << i << log.str());
      for (size_t j = 0; j < g.data.size(); ++j)
        PBT_CHECK(g.data[j] == w.data[j], "history", "layer " << i << " cell (" << j % g.info.width << "," << j / g.info.width % g.info.height << "," << j / g.info.width / g.info.height << ") costs " << static_cast<int>(g.data[j]) << " but " << static_cast<int>(w.data[j]) << " when computed from the current maps only;" << log.str());
    }
  }
  c.describe([&](std::ostream& o) { o << log.str(); });
  c.nontrivial(replaced > 0);
}

PBT_FACET(updates, 4, "random histories on a chain with static and update outputs: the full map with every published update applied always equals the publisher's map, updates stay inside the map and carry all headings; non-trivial: at least two partial updates")
{
  pbt::Src& s = c.src;
  const double res = s.pick({1.0, 0.1});
  const Spec sp = genSpec(s, res, true);
  auto ch = build(sp);
  std::ostringstream log;
  log << str(sp);
  const size_t nl = sp.layers.size();
  // consumer
  std::vector<int8_t> mine;
  unsigned w = 0, h = 0, an = 0;
  bool have = false;
  int partial = 0, fulls = 0, ups = 0;
  bool out_of_map = false;
  ch->on_full = [&](size_t, const cc::CSpace3DMsg& m) {
    ++fulls;
    have = true;
    w = m.info.width;
    h = m.info.height;
    an = m.info.angle;
    mine = m.data;
    PBT_CHECK(mine.size() == w * h * an, "full-size", "published costmap has " << mine.size() << " cells" << log.str());
  };
  ch->on_update = [&](size_t, const cc::CSpace3DMsg& m, const costmap_cspace_msgs::CSpace3DUpdate& u) {
    ++ups;
    PBT_CHECK(have, "update-before-map", "an update was published before a map" << log.str());
    PBT_CHECK(u.data.size() == static_cast<size_t>(u.width) * u.height * u.angle, "update-size", "update of " << u.width << "x" << u.height << "x" << u.angle << " has " << u.data.size() << " cells" << log.str());
    if (u.width * u.height * u.angle > 0)
    {
      PBT_CHECK(u.x + u.width <= w && u.y + u.height <= h && u.yaw == 0 && u.angle == an, "update-range", "update (" << u.x << "," << u.y << "," << u.yaw << ") " << u.width << "x" << u.height << "x" << u.angle << " in a map of " << w << "x" << h << "x" << an << log.str());
      PBT_CHECK(u.header.frame_id == m.header.frame_id, "update-frame", "update in frame " << u.header.frame_id << log.str());
      for (unsigned a = 0; a < u.angle; ++a)
        for (unsigned y = 0; y < u.height; ++y)
          for (unsigned x = 0; x < u.width; ++x)
            mine[((a + u.yaw) * h + y + u.y) * w + x + u.x] = u.data[(a * u.height + y) * u.width + x];
      partial += u.width < w || u.height < h;
    }
    else
    {
      // an overlay out of the map is reported by an empty update; anything pending comes with the next one
      PBT_CHECK(out_of_map, "update-empty", "empty update for an overlay inside the map" << log.str());
      return;
    }
    PBT_CHECK(m.data.size() == mine.size(), "publisher-size", "publisher's map has " << m.data.size() << " cells" << log.str());
    for (size_t j = 0; j < mine.size(); ++j)
      PBT_CHECK(mine[j] == m.data[j], "update-apply", "cell (" << j % w << "," << j / w % h << "," << j / w / h << ") is " << static_cast<int>(m.data[j]) << " at the publisher but " << static_cast<int>(mine[j]) << " with the updates applied;" << log.str());
  };
  nav_msgs::OccupancyGrid::Ptr base;
  double bres = res;
  std::vector<nav_msgs::OccupancyGrid::Ptr> cur(nl);
  std::vector<size_t> targets;
  size_t out = 0;
  for (size_t i = 1; i < nl; ++i)
  {
    if (sp.layers[i].kind == 0)
      targets.push_back(i);
    if (sp.layers[i].kind == 3)
      out = i;
  }
  const int n = s.irange(2, 7);
  for (int k = 0; k < n; ++k)
  {
    const int f0 = fulls, u0 = ups;
    bool below = true;
    if (k == 0 || s.chance(1, 6) || targets.empty())
    {
      if (base && s.chance(1, 4))
        bres = res * s.pick({1.0, 0.95, 1.2, 0.7, 1.6});
      auto b = makeGrid(s.irange(1, 12), s.irange(1, 12), static_cast<float>(bres), bres * s.irange(-3, 3), bres * s.irange(-3, 3));
      fill(s, *b, true);
      b->header.stamp = ros::Time(k + 1);
      base = b;
      log << "; base " << str(*b);
      ch->l[0]->setBaseMap(b);
    }
    else
    {
      const size_t at = s.pick(targets);
      below = at < out;
      auto v = genOverlay(s, s.chance(1, 4) ? res : bres, *base, cur[at].get(), k + 1);
      cur[at] = v;
      const double sc = v->info.resolution / base->info.resolution;
      const int ox = std::lround((v->info.origin.position.x - base->info.origin.position.x) / base->info.resolution), oy = std::lround((v->info.origin.position.y - base->info.origin.position.y) / base->info.resolution);
      out_of_map = ox >= static_cast<int>(base->info.width) || oy >= static_cast<int>(base->info.height) || ox + v->info.width * sc <= 0.6 || oy + v->info.height * sc <= 0.6;
      log << "; layer " << at << " " << v->header.frame_id << " " << str(*v);
      ch->l[at]->processMapOverlay(v, true);
    }
    // A change below the static output gives a new full map, one above it an update.
    if (below)
      PBT_CHECK(fulls == f0 + 1 && ups == u0, "outputs", fulls - f0 << " full maps and " << ups - u0 << " updates for a change below the static output" << log.str());
    else
      PBT_CHECK(fulls == f0 && ups == u0 + 1, "outputs", fulls - f0 << " full maps and " << ups - u0 << " updates for a change of the upper layers" << log.str());
  }
  c.describe([&](std::ostream& o) { o << log.str(); });
  c.nontrivial(partial >= 2);
}

// ---------------------------------------------------------------- C05
PBT_FACET(polygon, 4, "random simple polygons (boxes, triangles, star-shaped, either orientation), poses and points against exact arithmetic; non-trivial: a point inside the bounding box of a polygon of at least four vertices")
{
  pbt::Src& s = c.src;
  const double r = s.pick({1.0, 0.3, 5.0});
  const Poly p = genPoly(s, r, true);
  cc::Polygon g(toXml(p));
  PBT_CHECK(g.v.size() == p.size() + 1, "closed", "polygon of " << p.size() << " vertices is stored with " << g.v.size());
  double rad = 0;
  for (size_t i = 0; i < p.size(); ++i)
  {
    rad = std::max(rad, std::hypot(p[i].x, p[i].y));
    PBT_CHECK(g.v[i][0] == static_cast<float>(p[i].x) && g.v[i][1] == static_cast<float>(p[i].y), "vertices", "vertex " << i << " differs for " << str(p));
  }
  PBT_CHECK(g.v.back()[0] == g.v[0][0] && g.v.back()[1] == g.v[0][1], "closed", "polygon is not closed");
  PBT_CHECK(std::abs(g.radius() - rad) < 1e-5 * (1 + rad), "radius", "radius " << g.radius() << " expected " << rad << " for " << str(p));
  const auto msg = g.toMsg();
  PBT_CHECK(msg.polygon.points.size() >= p.size(), "message", "message has " << msg.polygon.points.size() << " points");
  for (size_t i = 0; i < p.size(); ++i)
    PBT_CHECK(msg.polygon.points[i].x == g.v[i][0] && msg.polygon.points[i].y == g.v[i][1], "message", "message vertex " << i << " differs");
  const float tx = s.sym(3 * r, 200), ty = s.sym(3 * r, 200), yaw = s.chance(1, 3) ? 0.0f : static_cast<float>(s.sym(7, 1000));
  const bool move = s.chance(3, 4);
  Poly q = p;
  if (move)
  {
    g.move(tx, ty, yaw);
    for (auto& v : q)
      v = P2{std::cos(yaw) * v.x - std::sin(yaw) * v.y + tx, std::sin(yaw) * v.x + std::cos(yaw) * v.y + ty};
  }
  const double tol = 3e-6 * (10 * r);
  for (size_t i = 0; i <= q.size(); ++i)
    PBT_CHECK(std::abs(g.v[i][0] - q[i % q.size()].x) < tol && std::abs(g.v[i][1] - q[i % q.size()].y) < tol, "move", "vertex " << i << " of " << str(p) << " moved by " << tx << " " << ty << " " << yaw);
  int in = 0;
  for (int k = 0; k < 4; ++k)
  {
    P2 a{s.sym(2 * r, 500), s.sym(2 * r, 500)};
    if (move)
      a = P2{a.x + tx, a.y + ty};
    if (s.chance(1, 4))
      a = P2{a.x, q[s.irange(0, q.size() - 1)].y};  // level with a vertex
    cc::Vec v;
    v[0] = a.x;
    v[1] = a.y;
    a = P2{v[0], v[1]};
    const double d = signedDist(q, a);
    std::ostringstream o;
    o << " of point (" << a.x << "," << a.y << ") and polygon " << str(q);
    c.describe([&](std::ostream& os) { os << o.str() << "; "; });
    PBT_CHECK(std::abs(g.dist(v) - std::abs(d)) < 10 * tol, "distance", "distance " << g.dist(v) << " expected " << std::abs(d) << o.str());
    if (std::abs(d) > 10 * tol)
      PBT_CHECK(g.inside(v) == (d < 0), "inside", "inside says " << g.inside(v) << o.str());
    in += d < 0;
    // Vec
    const cc::Vec b = g.v[s.irange(0, q.size())];
    PBT_CHECK(std::abs(v.dist(b) - std::hypot(v[0] - b[0], v[1] - b[1])) < tol && std::abs(v.dot(b) - (v[0] * b[0] + v[1] * b[1])) < tol * r * 10 && std::abs(v.cross(b) - (v[0] * b[1] - v[1] * b[0])) < tol * r * 10, "vec", "vector arithmetic" << o.str());
  }
  c.nontrivial(in > 0 && q.size() >= 4);
}
PBT_FACET(polygon_invalid, 1, "malformed footprint parameters are refused with an exception; non-trivial: always")
{
  pbt::Src& s = c.src;
  XmlRpc::XmlRpcValue x;
  const int kind = s.irange(0, 3);
  if (kind == 0)
    x = 1.5;
  else
    for (int i = 0, n = kind == 1 ? s.irange(1, 2) : s.irange(3, 6); i < n; ++i)
    {
      x[i][0] = s.sym(2, 10);
      x[i][1] = s.sym(2, 10);
    }
  if (kind == 2)
    x[s.irange(0, x.size() - 1)] = std::string("corner");
  if (kind == 3)
    x[s.irange(0, x.size() - 1)][1] = std::string("y");
  bool thrown = false;
  try
  {
    cc::Polygon p(x);
  }
  catch (const std::exception&)
  {
    thrown = true;
  }
  catch (const XmlRpc::XmlRpcException&)
  {
    thrown = true;
  }
  c.describe([&](std::ostream& o) { o << "malformed footprint of kind " << kind; });
  PBT_CHECK(thrown, "invalid", "a malformed footprint of kind " << kind << " is accepted");
  c.nontrivial();
}

// ---------------------------------------------------------------- C06
PBT_FACET(accumulator, 4, "random arrival histories (bursts, gaps, equal stamps), hold times, clears and resets against a list model; non-trivial: more than one cloud expires at once")
{
  pbt::Src& s = c.src;
  using Acc = cc::PointcloudAccumulator<std::vector<int>>;
  double hold = s.real(0, 4, 16);
  Acc acc = s.flip() ? Acc(ros::Duration(hold)) : Acc();
  std::ostringstream log;
  log << " hold " << hold;
  acc.reset(ros::Duration(hold));
  std::vector<std::pair<double, int>> model;
  double t = 10;
  int multi = 0;
  for (int k = 0, n = s.irange(1, 20); k < n; ++k)
  {
    const int op = s.weighted({15, 1, 1});
    if (op == 1)
    {
      acc.clear();
      model.clear();
      log << "; clear";
    }
    else if (op == 2)
    {
      hold = s.real(0, 4, 16);
      acc.reset(ros::Duration(hold));
      model.clear();
      log << "; reset " << hold;
    }
    else
    {
      t += s.chance(1, 5) ? s.real(0, 8, 32) : s.real(0, 1, 8);
      acc.push(Acc::Points(std::vector<int>(1, k), ros::Time(t)));
      log << "; push " << k << " at " << t;
      const size_t before = model.size();
      // all times are multiples of 1/8 or 1/4: exact
      model.erase(std::remove_if(model.begin(), model.end(), [&](auto& e) { return e.first + hold < t; }), model.end());
      multi += before - model.size() >= 2;
      model.push_back({t, k});
    }
    std::vector<std::pair<double, int>> got;
    for (auto& p : acc)
      got.push_back({p.stamp_.toSec(), p[0]});
    const Acc& ca = acc;
    size_t cn = 0;
    for (auto it = ca.begin(); it != ca.end(); ++it)
      ++cn;
    PBT_CHECK(cn == got.size(), "const-iteration", "const iteration sees " << cn << " clouds, the other " << got.size());
    std::ostringstream gs;
    for (auto& p : got)
      gs << " " << p.second;
    PBT_CHECK(got.size() == model.size(), "held", "holds" << gs.str() << ", expected " << model.size() << " clouds:" << log.str());
    for (size_t i = 0; i < got.size(); ++i)
      PBT_CHECK(got[i].second == model[i].second && std::abs(got[i].first - model[i].first) < 1e-6, "held", "holds" << gs.str() << " instead of cloud " << model[i].second << " at " << i << ":" << log.str());
  }
  c.describe([&](std::ostream& o) { o << log.str(); });
  c.nontrivial(multi > 0);
}
