SEEDS = []
C3 = "costmap_cspace/src/costmap_3d.cpp"
SEEDS.append(dict(
    id="C02-newest-buffered", property="C02",
    needs="overlays of two layers arriving before the first base map",
    breaks="only the overlay that came last before the base map is applied; the obstacles of the other layers are missing until their overlays are sent again",
    edits=[(C3, "      map_buffer_.push_back(\n          std::pair<", "      map_buffer_.clear();\n      map_buffer_.push_back(\n          std::pair<")],
    nodes=[C3], src=["costmap_cspace/src/costmap_3d_layers.cpp"], demo=r"""
#include <costmap_cspace_msgs/CSpace3D.h>
#include <costmap_cspace_msgs/CSpace3DUpdate.h>
#include <nav_msgs/OccupancyGrid.h>
int costmap_3d_main(int, char**);
static nav_msgs::OccupancyGrid grid(int cell)
{
  nav_msgs::OccupancyGrid m;
  m.header.frame_id = "map";
  m.info.width = m.info.height = 12;
  m.info.resolution = 1;
  m.info.origin.orientation.w = 1;
  m.data.assign(144, 0);
  if (cell >= 0)
    m.data[cell] = 100;
  return m;
}
int main()
{
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  W().setParam("/costmap_3d/ang_resolution", 4);
  W().setParam("/costmap_3d/linear_expand", 0.1);
  W().setParam("/costmap_3d/linear_spread", 0.2);
  XmlRpc::XmlRpcValue fp, layers;
  const double c[4][2] = {{0.2, 0.2}, {0.2, -0.2}, {-0.2, -0.2}, {-0.2, 0.2}};
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 2; ++j)
      fp[i][j] = c[i][j];
  W().setParam("/costmap_3d/footprint", fp);
  for (int i = 0; i < 2; ++i)
  {
    layers[i]["name"] = std::string(i ? "second" : "first");
    layers[i]["type"] = std::string("Costmap3dLayerFootprint");
    layers[i]["overlay_mode"] = std::string("max");
    layers[i]["linear_expand"] = 0.1;
    layers[i]["linear_spread"] = 0.2;
    layers[i]["footprint"] = fp;
  }
  W().setParam("/costmap_3d/layers", layers);
  run(costmap_3d_main);
  auto full = W().listen<costmap_cspace_msgs::CSpace3D>("/costmap");
  auto upd = W().listen<costmap_cspace_msgs::CSpace3DUpdate>("/costmap_update");
  W().publish("/first", grid(2 * 12 + 3));
  W().settle();
  W().publish("/second", grid(8 * 12 + 7));
  W().settle();
  W().publish("/map", grid(-1));
  W().advance(0.5);
  EXPECT(!W().crashed && !full->empty() && !upd->empty());
  if (bad)
    return 1;
  costmap_cspace_msgs::CSpace3D m = full->back().second;
  for (auto& e : *upd)
  {
    const auto& u = e.second;
    for (unsigned a = 0; a < u.angle; ++a)
      for (unsigned y = 0; y < u.height; ++y)
        for (unsigned x = 0; x < u.width; ++x)
          m.data[((u.yaw + a) * m.info.height + u.y + y) * m.info.width + u.x + x] = u.data[(a * u.height + y) * u.width + x];
  }
  EXPECT(m.data[2 * 12 + 3] == 100);
  EXPECT(m.data[8 * 12 + 7] == 100);
  W().stop();
  return bad;
}
"""))
TP = "track_odometry/src/tf_projection_node.cpp"
SEEDS.append(dict(
    id="O02-mixed-times", property="O02",
    needs="the pose of the surface being known for a later time than that of the source, while the surface moves",
    breaks="the pose of the source is put on the surface as it is at another time, so the projected frame is off the surface at its stamp",
    edits=[(TP, "          tf_buffer_.lookupTransform(parent_frame_, projection_surface_frame_, trans.stamp_, ros::Duration(0.1)),", "          tf_buffer_.lookupTransform(parent_frame_, projection_surface_frame_, ros::Time(0), ros::Duration(0.1)),")],
    nodes=[TP], src=["track_odometry/src/tf_projection.cpp"], demo=r"""
#include <tf2_ros/transform_broadcaster.h>
int tf_projection_node_main(int, char**);
int main()
{
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  for (const char* n : {"tf_projection", "tf_projection_node"})
  {
    const std::string b = std::string("/") + n + "/";
    W().setParam(b + "source_frame", std::string("base_link"));
    W().setParam(b + "projection_surface_frame", std::string("floor"));
    W().setParam(b + "parent_frame", std::string("map"));
    W().setParam(b + "projected_frame", std::string("base_link_projected"));
    W().setParam(b + "hz", 10.0);
    W().setParam(b + "tf_tolerance", 0.0);
    W().setParam(b + "flat", false);
  }
  run(tf_projection_node_main);
  for (int i = 0; i < 5; ++i)
  {
    const int64_t now = W().now;
    const double id[4] = {0, 0, 0, 1};
    const double src[3] = {0.5, 0.2, 1.0}, here[3] = {1.0 + i, 0, 0}, later[3] = {1.5 + i, 0, 0};
    W().setTf("floor", "base_link", now, src, id, false);
    W().setTf("map", "floor", now, here, id, false);
    W().setTf("map", "floor", now + 50000000, later, id, false);
    const size_t n = sim::sentTf().size();
    W().advance(0.3);
    for (size_t k = n; k < sim::sentTf().size(); ++k)
    {
      const auto& t = sim::sentTf()[k].msg;
      if (std::abs((t.header.stamp - W().time()).toSec() + 0.3) < 1e-4)
      {
        EXPECT(std::abs(t.transform.translation.x - 1.5 - i) < 1e-4);
        EXPECT(std::abs(t.transform.translation.y - 0.2) < 1e-4);
      }
    }
  }
  EXPECT(!sim::sentTf().empty());
  W().stop();
  return bad;
}
"""))
OP = "obj_to_pointcloud/src/obj_to_pointcloud.cpp"
SEEDS.append(dict(
    id="M03-fraction-dropped", property="M03",
    needs="a mesh of triangles which expect less than one point or a few each",
    breaks="the fraction of a point a triangle expects is dropped, so finely divided surfaces are too sparse or missing",
    edits=[(OP, "          int num = numf;\n          if (numf - num > ud(engine_))\n            num++;\n", "          const int num = std::max(numf, 0.0f);\n")],
    nodes=[OP], demo=r"""
#include <sensor_msgs/PointCloud2.h>
#include <fstream>
int obj_to_pointcloud_main(int, char**);
int main()
{
  {
    std::ofstream o("demo.obj");  // in the scratch folder
    const int n = 1000;
    for (int k = 0; k < n; ++k)
      o << "v " << k << " 0 0\nv " << k + 0.1 << " 0 0\nv " << k << " 0.1 0\n";
    for (int k = 0; k < n; ++k)
      o << "f " << 3 * k + 1 << " " << 3 * k + 2 << " " << 3 * k + 3 << "\n";
  }
  sim::resetWorld();
  W().setParam("/neonavigation_compatible", 1);
  W().setParam("/obj_to_pointcloud/points_per_meter_sq", 100.0);
  W().setParam("/obj_to_pointcloud/downsample_grid", 0.01);
  W().setParam("/obj_to_pointcloud/objs", std::string("demo.obj"));
  auto out = W().listen<sensor_msgs::PointCloud2>("/mapcloud");
  run(obj_to_pointcloud_main);
  EXPECT(out->size() == 1);
  if (out->size() == 1)
  {
    const double n = out->back().second.width * out->back().second.height;
    printf("%f points\n", n);
    EXPECT(n > 380 && n < 620);  // 500 expected
  }
  W().stop();
  return bad;
}
"""))
OUT = "costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h"
SEEDS.append(dict(
    id="C03-full-rows", property="C03",
    needs="an update over the full width of the map from its first row, but not down to its last row, with two headings or more",
    breaks="such an update is copied as one block, so its cells of all headings but the first come from the wrong rows",
    edits=[(OUT, "        (update_msg->width == map_->info.width) && (update_msg->height == map_->info.height) &&\n", "        (update_msg->width == map_->info.width) &&\n")],
    nodes=[], demo=r"""
#include <costmap_cspace/costmap_3d.h>
int main()
{
  namespace cc = costmap_cspace;
  cc::Costmap3d cm(4);
  cc::Polygon fp;
  fp.v.resize(5);
  const float c[5][2] = {{0.2f, 0.2f}, {0.2f, -0.2f}, {-0.2f, -0.2f}, {-0.2f, 0.2f}, {0.2f, 0.2f}};
  for (int i = 0; i < 5; ++i)
    fp.v[i][0] = c[i][0], fp.v[i][1] = c[i][1];
  auto root = cm.addRootLayer<cc::Costmap3dLayerFootprint>();
  root->setExpansion(0, 0);
  root->setFootprint(fp);
  auto over = cm.addLayer<cc::Costmap3dLayerFootprint>(cc::MapOverlayMode::MAX);
  over->setExpansion(0, 0);
  over->setFootprint(fp);
  auto output = cm.addLayer<cc::Costmap3dUpdateLayerOutput>();
  std::vector<int8_t> held;
  int n = 0;
  output->setHandler([&](const cc::CSpace3DMsg::Ptr& m, const costmap_cspace_msgs::CSpace3DUpdate::Ptr& u)
  {
    ++n;
    held.resize(m->data.size());
    for (unsigned a = 0; a < u->angle; ++a)
      for (unsigned y = 0; y < u->height; ++y)
        for (unsigned x = 0; x < u->width; ++x)
          held[((u->yaw + a) * m->info.height + u->y + y) * m->info.width + u->x + x] = u->data[(a * u->height + y) * u->width + x];
    for (size_t i = 0; i < held.size(); ++i)
      if (held[i] != m->data[i])
        bad = 1;
    return true;
  });
  nav_msgs::OccupancyGrid::Ptr base(new nav_msgs::OccupancyGrid), o(new nav_msgs::OccupancyGrid);
  base->info.width = base->info.height = 6;
  base->info.resolution = 1;
  base->info.origin.orientation.w = 1;
  base->data.assign(36, 0);
  base->data[3 * 6 + 2] = base->data[5 * 6 + 5] = 100;
  cm.getRootLayer()->setBaseMap(base);
  *o = *base;
  o->info.height = 2;
  for (int k = 0; k < 4; ++k)
  {
    o->data.assign(12, 0);
    o->data[k * 3] = 100;
    over->processMapOverlay(o, true);
  }
  EXPECT(n >= 4);
  return bad;
}
"""))
FP = "costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h"
CM_DEMO = r"""
#include <costmap_cspace/costmap_3d.h>
namespace cc = costmap_cspace;
static cc::Polygon poly(float lx, float ly)
{
  cc::Polygon fp;
  fp.v.resize(5);
  const float c[5][2] = {{lx, ly}, {lx, -ly}, {-lx, -ly}, {-lx, ly}, {lx, ly}};
  for (int i = 0; i < 5; ++i)
    fp.v[i][0] = c[i][0], fp.v[i][1] = c[i][1];
  return fp;
}
static nav_msgs::OccupancyGrid::Ptr grid(int w, int h, double res, int fill)
{
  nav_msgs::OccupancyGrid::Ptr m(new nav_msgs::OccupancyGrid);
  m->info.width = w;
  m->info.height = h;
  m->info.resolution = res;
  m->info.origin.orientation.w = 1;
  m->data.assign(w * h, fill);
  return m;
}
"""
SEEDS.append(dict(
    id="C01-template-kept", property="C01",
    needs="a second base map of another resolution, for which the reach of the footprint takes as many cells",
    breaks="the template of the footprint is that of the first resolution, so cells where the robot would hit an obstacle are not lethal",
    edits=[(FP, "    range_max_ =\n        std::ceil((footprint_radius_ + linear_expand_ + linear_spread_) / info.linear_resolution);\n    cs_template_.reset(range_max_, range_max_, info.angle);\n",
            "    const int range_max_prev = range_max_;\n    range_max_ =\n        std::ceil((footprint_radius_ + linear_expand_ + linear_spread_) / info.linear_resolution);\n    int size_x, size_y, size_angle;\n    cs_template_.getSize(size_x, size_y, size_angle);\n    if (range_max_ > 0 && range_max_ == range_max_prev && size_angle == static_cast<int>(info.angle))\n      return;\n    cs_template_.reset(range_max_, range_max_, info.angle);\n")],
    nodes=[], demo=CM_DEMO + r"""
int main()
{
  cc::Costmap3d cm(4);
  auto root = cm.addRootLayer<cc::Costmap3dLayerFootprint>();
  root->setExpansion(0, 0);
  root->setFootprint(poly(1.1f, 1.1f));  // radius 1.56
  for (double res : {1.5, 1.0})
  {
    auto m = grid(9, 9, res, 0);
    m->data[4 * 9 + 4] = 100;
    cm.getRootLayer()->setBaseMap(m);
    auto c = cm.getRootLayer()->getMap();
    for (int dy = -1; dy <= 1; ++dy)
      for (int dx = -1; dx <= 1; ++dx)
        EXPECT((c->getCost(4 + dx, 4 + dy, 0) == 100) == (res == 1.0 || (dx == 0 && dy == 0)));
  }
  return bad;
}
"""))
SEEDS.append(dict(
    id="C04-unknown-by-first-heading", property="C04",
    needs="keep_unknown on a layer above one that spreads obstacles over unknown cells, with a footprint that reaches a cell at some headings only",
    breaks="an obstacle known at some headings is erased from an unknown cell as the cell is unknown at the first heading",
    edits=[(FP, "    if (keep_unknown_)\n    {\n      unknown_buf_.resize(msg->data.size());", "    if (keep_unknown_ && yaw == 0)\n    {\n      unknown_buf_.resize(msg->data.size());")],
    nodes=[], demo=CM_DEMO + r"""
int main()
{
  cc::Costmap3d cm(4);
  auto root = cm.addRootLayer<cc::Costmap3dLayerFootprint>();
  root->setExpansion(0, 0);
  root->setFootprint(poly(2.2f, 0.2f));
  auto low = cm.addLayer<cc::Costmap3dLayerFootprint>(cc::MapOverlayMode::MAX);
  low->setExpansion(0, 0);
  low->setFootprint(poly(2.2f, 0.2f));
  auto high = cm.addLayer<cc::Costmap3dLayerFootprint>(cc::MapOverlayMode::MAX);
  high->setExpansion(0, 0);
  high->setFootprint(poly(2.2f, 0.2f));
  high->setKeepUnknown(true);
  auto base = grid(9, 9, 1.0, -1), o = grid(9, 9, 1.0, -1), u = grid(9, 9, 1.0, -1);
  o->data[4 * 9 + 4] = 100;
  cm.getRootLayer()->setBaseMap(base);
  low->processMapOverlay(o, true);
  high->processMapOverlay(u, true);
  auto c = high->getMapOverlay();
  EXPECT(c->getCost(6, 4, 0) == 100 && c->getCost(2, 4, 2) == 100);
  EXPECT(c->getCost(4, 6, 1) == 100 && c->getCost(4, 2, 3) == 100);
  EXPECT(c->getCost(8, 8, 0) == -1 && c->getCost(8, 8, 1) == -1);
  return bad;
}
"""))
SEEDS.append(dict(
    id="C05-distance-capped", property="C05",
    needs="a point farther from the polygon than the polygon reaches from the origin",
    breaks="the distance to the polygon is never more than the polygon's radius",
    edits=[("costmap_cspace/include/costmap_cspace/polygon.h", "    float dist = std::numeric_limits<float>::max();\n", "    float dist = radius();\n")],
    nodes=[], demo=CM_DEMO + r"""
int main()
{
  auto p = poly(0.3f, 0.2f);
  cc::Vec a;
  a[0] = 2.3f;
  a[1] = 0;
  EXPECT(std::abs(p.dist(a) - 2.0f) < 1e-4);
  a[0] = 0.1f;
  EXPECT(std::abs(p.dist(a) - 0.2f) < 1e-4);
  p.move(5, 0, M_PI / 2);
  a[0] = 0;
  EXPECT(std::abs(p.dist(a) - 4.8f) < 1e-4);
  return bad;
}
"""))
SEEDS.append(dict(
    id="C06-reset-keeps", property="C06",
    needs="an accumulator that holds clouds is reset to another hold time",
    breaks="the clouds from before the reset are still there",
    edits=[("costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h", "    time_to_hold_ = duration;\n    clear();\n", "    if (time_to_hold_.isZero())\n      clear();\n    time_to_hold_ = duration;\n")],
    nodes=[], demo=r"""
#include <list>
#include <ros/ros.h>
#include <costmap_cspace/pointcloud_accumulator.h>
int main()
{
  using A = costmap_cspace::PointcloudAccumulator<std::vector<int>>;
  A a(ros::Duration(1.0));
  const auto count = [&] { return std::distance(a.begin(), a.end()); };
  a.push(A::Points({1}, ros::Time(10.0)));
  a.push(A::Points({2}, ros::Time(10.5)));
  EXPECT(count() == 2);
  a.reset(ros::Duration(3.0));
  EXPECT(count() == 0);
  a.push(A::Points({3}, ros::Time(11.0)));
  EXPECT(count() == 1);
  a.clear();
  EXPECT(count() == 0);
  return bad;
}
"""))
MPB = "planner_cspace/src/motion_primitive_builder.cpp"
SEEDS.append(dict(
    id="P08-drift-one-sided", property="P08",
    needs="a heading and resolution at which the second radius of a curve is the larger one",
    breaks="curves whose two radii differ, which a car-like robot cannot drive, are offered",
    edits=[(MPB, "        if (std::abs(r1 - r2) >= map_info.linear_resolution * 1.5)\n", "        if (r1 - r2 >= map_info.linear_resolution * 1.5)\n")],
    nodes=[], src=[MPB, "planner_cspace/src/rotation_cache.cpp"], demo=r"""
#include <planner_cspace/planner_3d/motion_primitive_builder.h>
#include <planner_cspace/planner_3d/grid_astar_model.h>
#include <planner_cspace/planner_3d/rotation_cache.h>
using namespace planner_cspace::planner_3d;
int main()
{
  costmap_cspace_msgs::MapMetaData3D info;
  info.width = info.height = 10;
  info.angle = 16;
  info.linear_resolution = 0.1;
  info.angular_resolution = 2 * M_PI / 16;
  const int range = 7;
  CostCoeff cc = CostCoeff();
  cc.min_curve_radius_ = 0.1;
  cc.angle_resolution_aspect_ = 1.0 / std::tan(info.angular_resolution);
  int n = 0;
  const auto all = MotionPrimitiveBuilder::build(info, cc, range);
  for (int i = 0; i < 16; ++i)
  {
    for (const auto& p : all[i])
    {
      if (p[2] == 0 || (p[0] == 0 && p[1] == 0))
        continue;
      // the two radii, from the start and from the end of the arc
      const double a = i * info.angular_resolution, x = p[0] * 0.1, y = p[1] * 0.1;
      const double mx = std::cos(a) * x + std::sin(a) * y, my = -std::sin(a) * x + std::cos(a) * y;
      double t = p[2] * info.angular_resolution;
      if (t > M_PI)
        t -= 2 * M_PI;
      const double c = std::cos(t), s = std::sin(t);
      const double r1 = my + mx * c / s, r2 = std::copysign(std::hypot(mx, mx * c / s), mx * s);
      ++n;
      EXPECT(std::abs(r1 - r2) < 0.1 * 1.5 + 1e-3);
    }
  }
  EXPECT(n > 100);
  return bad;
}
"""))
JD = "planner_cspace/include/planner_cspace/jump_detector.h"
SEEDS.append(dict(
    id="P14-half-updated", property="P14",
    needs="the map frame alone is missing for a while as the robot moves by odometry, and is back without a correction",
    breaks="the odometry pose is stored although the map pose is not, so the motion during the loss is reported as a jump (or hides one)",
    edits=[(JD, "      tf2::fromMsg(base_trans_tmp, base_trans);\n      tf2::fromMsg(map_trans_tmp", "      tf2::fromMsg(map_trans_tmp"),
           (JD, "      geometry_msgs::TransformStamped map_trans_tmp =\n", "      tf2::fromMsg(base_trans_tmp, base_trans);\n      geometry_msgs::TransformStamped map_trans_tmp =\n"),
           (JD, "    {\n      return false;\n    }\n    const auto diff", "    {\n      if (!base_trans.stamp_.isZero())\n        base_trans_prev_ = base_trans;\n      return false;\n    }\n    const auto diff")],
    nodes=[], src=["planner_cspace/src/rotation_cache.cpp"], demo=r"""
#include <planner_cspace/jump_detector.h>
int main()
{
  sim::resetWorld();
  tf2_ros::Buffer buf;
  planner_cspace::planner_3d::JumpDetector det(buf);
  det.setMapFrame("map");
  det.setBaseFrame("odom");
  det.setThresholds(1.0, 1.0);
  W().now += 1000000000;
  for (int i = 0; i < 40; ++i)
  {
    W().now += 100000000;
    sendTf("odom", "base_link", 0.2 * i, 0, 0);
    sendTf("map", "odom", 3, 1, 0.5);
    det.setMapFrame(i >= 10 && i < 30 ? "nowhere" : "map");
    EXPECT(!det.detectJump());
  }
  sendTf("map", "odom", 5, 1, 0.5);
  EXPECT(det.detectJump());
  return bad;
}
"""))
