// M01: floor maps through files, selection and pose transformation;
// M02: floors extracted from point clouds; M03: point clouds of meshes.
#include <algorithm>
#include <cmath>
#include <fstream>
#include <map>
#include <random>
#include <set>
#include <sstream>

#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>
#include <ftw.h>

#include <Eigen/Core>
#include <Eigen/Geometry>

#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <map_organizer_msgs/OccupancyGridArray.h>
#include <nav_msgs/OccupancyGrid.h>
#include <ros/ros.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/point_cloud2_iterator.h>
#include <sim/world.h>
#include <std_msgs/Int32.h>
#include <tf2_ros/transform_broadcaster.h>

#include "pbt.h"

int select_map_main(int argc, char** argv);
int pose_transform_main(int argc, char** argv);
int save_maps_main(int argc, char** argv);
int tie_maps_main(int argc, char** argv);
int pointcloud_to_maps_main(int argc, char** argv);
int obj_to_pointcloud_main(int argc, char** argv);

// select_map keeps its state in globals; give each case a fresh start while they are there.
extern __attribute__((weak)) map_organizer_msgs::OccupancyGridArray maps;
extern __attribute__((weak)) int floor_cur;

#ifdef random_device
#error the harness must not replace random_device itself
#endif

namespace sim
{
extern uint32_t random_seed;  // what std::random_device yields to the node
}

namespace
{
using Eigen::Quaterniond;
using Eigen::Vector3d;
using Maps = map_organizer_msgs::OccupancyGridArray;
using nav_msgs::OccupancyGrid;
using pbt::Ctx;
using pbt::Src;
const int64_t MS = 1000000;

int removeOne(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
// Files live in a directory of their own, which is also the working directory.
struct Scratch
{
  std::string dir;
  char before[4096];
  Scratch()
  {
    const char* base = getenv("PBT_TMP");  // removed when the check ends
    dir = std::string(base ? base : "/tmp") + "/maps_XXXXXX";
    PBT_CHECK(mkdtemp(&dir[0]) && getcwd(before, sizeof(before)) && !chdir(dir.c_str()), "harness", "no scratch directory");
  }
  ~Scratch()
  {
    if (chdir(before))
      abort();
    nftw(dir.c_str(), removeOne, 8, FTW_DEPTH | FTW_PHYS);
  }
};
void startNode(const std::string& name, int (*entry)(int, char**), const std::vector<std::string>& args = {})
{
  sim::World& w = sim::world();
  w.node = name;
  w.start([entry, args]
          {
            std::vector<std::string> own = {"n"};
            own.insert(own.end(), args.begin(), args.end());
            std::vector<char*> a;
            for (auto& s : own)
              a.push_back(&s[0]);
            a.push_back(nullptr);
            return entry(own.size(), a.data()); });
  w.settle();
}
void alive()
{
  sim::World& w = sim::world();
  PBT_CHECK(!w.crashed, "crash", "the node ended: " << w.crash_what);
}
OccupancyGrid randomMap(Src& s, bool exact)
{
  OccupancyGrid m;
  m.header.frame_id = "map";
  m.info.resolution = s.pick({0.05f, 0.1f, 0.25f, 1.0f});
  m.info.width = s.irange(1, 9);
  m.info.height = s.irange(1, 9);
  m.info.origin.position.x = s.sym(exact ? 50 : 1000);
  m.info.origin.position.y = s.sym(50);
  m.info.origin.position.z = s.weighted({1, 3}) == 0 ? 0 : s.sym(20);
  const double yaw = s.weighted({3, 1}) == 0 ? 0 : s.sym(3.1);
  m.info.origin.orientation.z = std::sin(yaw / 2);
  m.info.origin.orientation.w = std::cos(yaw / 2);
  for (size_t k = 0; k < m.info.width * m.info.height; ++k)
    m.data.push_back(s.pick<int>({0, 100, -1}));
  return m;
}

PBT_FACET(select, 2, "map sets of any size, floor requests in and out of range, new map sets; non-trivial: two floors were shown")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  sim::World& w = sim::world();
  w.setParam("/neonavigation_compatible", 1);
  sim::sentTf().clear();
  auto out = w.listen<OccupancyGrid>("/map");
  const bool fresh = &floor_cur && &maps;
  if (fresh)
  {
    ::floor_cur = 0;
    ::maps = Maps();
  }
  startNode("select_map", select_map_main);
  int floor = 0;
  if (!fresh || s.chance(1, 4))
  {
    std_msgs::Int32 f;
    f.data = floor = s.irange(-1, 3);
    w.publish("/floor", f);
    w.publish("/maps", Maps());
    w.advance(0.3);
    out->clear();
    sim::sentTf().clear();
  }
  Maps held;
  bool shown = false;
  double height = 0;
  OccupancyGrid current;
  std::set<double> seen;
  const int n = s.irange(1, 10);
  for (int i = 0; i < n; ++i)
  {
    out->clear();
    const int what = i == 0 ? s.weighted({3, 1}) : s.weighted({1, 4, 1});
    bool news = false;
    if (what == 0)
    {
      held.maps.clear();
      const int k = s.irange(1, 4);
      for (int j = 0; j < k; ++j)
        held.maps.push_back(randomMap(s, false));
      w.publish("/maps", held);
      news = true;
      log << w.now / MS << " " << k << " maps\n";
    }
    else if (what == 1)
    {
      std_msgs::Int32 f;
      const int before = floor;
      f.data = floor = s.weighted({4, 1}) == 0 ? s.irange(0, 3) : s.pick<int>({-1, -2, 4, 100, -2147483647});
      w.publish("/floor", f);
      news = floor != before;
      log << w.now / MS << " floor " << floor << "\n";
    }
    sim::sentTf().clear();
    const int64_t from = w.now;
    w.advance(0.35);
    alive();
    const bool in = floor >= 0 && floor < static_cast<int>(held.maps.size());
    if (in && (news || !shown))
    {
      PBT_CHECK(out->size() >= 1, "shown", "the selected floor is not published");
      PBT_CHECK(out->size() == 1, "once", "published " << out->size() << " times");
      current = held.maps[floor];
      height = current.info.origin.position.z;
      current.info.origin.position.z = 0;
      shown = true;
      seen.insert(height);
    }
    else if (!in)
      PBT_CHECK(out->empty(), "range", "a floor out of range changed the map");
    for (auto& e : *out)
    {
      const OccupancyGrid& m = e.second;
      PBT_CHECK(m.data == current.data && m.info.width == current.info.width && m.info.height == current.info.height && m.info.resolution == current.info.resolution && m.info.origin.position.x == current.info.origin.position.x && m.info.origin.position.y == current.info.origin.position.y && m.info.origin.orientation.z == current.info.origin.orientation.z, "content", "another map is published");
      PBT_CHECK(m.info.origin.position.z == 0, "ground", "published at height " << m.info.origin.position.z);
    }
    const auto& tf = sim::sentTf();
    if (held.maps.empty())
    {
      PBT_CHECK(tf.empty(), "tf", "a transform without maps");
      continue;
    }
    PBT_CHECK(tf.size() >= 2, "tf", "the transform is not sent");
    for (auto& t : tf)
    {
      PBT_CHECK(t.msg.header.frame_id == "map_ground" && t.msg.child_frame_id == "map", "tf", t.msg.header.frame_id);
      PBT_CHECK(t.msg.header.stamp.toNSec() > static_cast<uint64_t>(t.t), "tf", "the transform is already out of date");
      PBT_CHECK(t.msg.transform.translation.x == 0 && t.msg.transform.translation.y == 0 && t.msg.transform.rotation.w == 1, "tf", "");
      if (t.t > from + 110 * MS)
        PBT_CHECK(t.msg.transform.translation.z == height, "height", "at " << t.msg.transform.translation.z << " instead of " << height);
    }
  }
  if (seen.size() >= 2)
    c.nontrivial();
}

PBT_FACET(pose, 1, "poses in any frame, moving and missing transforms; non-trivial: a pose was rotated")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  sim::World& w = sim::world();
  w.setParam("/neonavigation_compatible", 1);
  const std::string to = s.pick({std::string("map"), std::string("map_ground")});
  if (to != "map" || s.flip())
    w.setParam("/pose_transform/to_frame", to);
  auto out = w.listen<geometry_msgs::PoseWithCovarianceStamped>("/pose_out");
  startNode("pose_transform", pose_transform_main);
  w.settle();
  const int n = s.irange(1, 6);
  const auto rot = [&]
  { return Eigen::AngleAxisd(s.sym(3), Vector3d::UnitZ()) * Eigen::AngleAxisd(s.sym(1), Vector3d::UnitY()) * Eigen::AngleAxisd(s.sym(2), Vector3d::UnitX()); };
  bool known = false;
  Quaterniond q = Quaterniond::Identity();
  Vector3d p = Vector3d::Zero();
  for (int i = 0; i < n; ++i)
  {
    if (s.chance(3, 4))
    {
      known = true;
      q = s.chance(1, 4) ? Quaterniond::Identity() : Quaterniond(rot());
      p = Vector3d(s.sym(10), s.sym(10), s.sym(10));
      const double pp[3] = {p.x(), p.y(), p.z()}, qq[4] = {q.x(), q.y(), q.z(), q.w()};
      w.setTf(to.c_str(), "in", w.now, pp, qq, false);
    }
    geometry_msgs::PoseWithCovarianceStamped m;
    const bool own = s.chance(1, 8) && known, lost = s.chance(1, 6);
    m.header.frame_id = own ? to : "in";
    m.header.stamp = s.chance(1, 3) ? ros::Time(1) : w.time();
    const Quaterniond pq(rot());
    const Vector3d po(s.sym(10), s.sym(10), s.sym(10));
    m.pose.pose.position.x = po.x();
    m.pose.pose.position.y = po.y();
    m.pose.pose.position.z = po.z();
    m.pose.pose.orientation.x = pq.x();
    m.pose.pose.orientation.y = pq.y();
    m.pose.pose.orientation.z = pq.z();
    m.pose.pose.orientation.w = pq.w();
    for (auto& v : m.pose.covariance)
      v = s.real(0, 1);
    out->clear();
    w.tf_blackout = lost && !own;
    w.publish("/pose_in", m);
    w.advance(0.8);
    w.tf_blackout = false;
    alive();
    log << w.now / MS << " pose " << po.transpose() << " in " << m.header.frame_id << (lost ? " lost" : "") << " tf " << p.transpose() << " -> " << out->size() << "\n";
    if (!own && (lost || !known))
    {
      PBT_CHECK(out->empty(), "untransformed", "published without the transform");
      continue;
    }
    PBT_CHECK(out->size() == 1, "once", out->size() << " poses published");
    const auto& r = out->back().second;
    const Vector3d want = own ? po : Vector3d(q * po + p);
    const Quaterniond wq = own ? pq : q * pq;
    const Quaterniond rq(r.pose.pose.orientation.w, r.pose.pose.orientation.x, r.pose.pose.orientation.y, r.pose.pose.orientation.z);
    PBT_CHECK(r.header.frame_id == to, "frame", r.header.frame_id);
    PBT_CHECK((Vector3d(r.pose.pose.position.x, r.pose.pose.position.y, r.pose.pose.position.z) - want).norm() < 1e-6, "position", "");
    PBT_CHECK((rq.toRotationMatrix() - wq.toRotationMatrix()).norm() < 1e-6, "attitude", "");
    PBT_CHECK(r.pose.covariance == m.pose.covariance, "covariance", "");
    if (!own && (q.toRotationMatrix() - Eigen::Matrix3d::Identity()).norm() > 1e-3)
      c.nontrivial();
  }
}

PBT_FACET(files, 2, "map sets of any content saved under absolute and relative names and tied again, hand-written map files; non-trivial: a map with free, occupied and unknown cells came back")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  const Scratch scratch;
  Maps set;
  const int n = s.weighted({1, 6}) == 0 ? 0 : s.irange(1, 4);
  for (int i = 0; i < n; ++i)
    set.maps.push_back(randomMap(s, true));
  const bool by_hand = s.chance(1, 3);
  const int naming = s.weighted({2, 2, 2});
  if (mkdir("sub", 0700))
    abort();
  const std::string name = naming == 0 ? scratch.dir + "/floor" : naming == 1 ? "floor" : "sub/floor";
  std::string list;
  log << n << " maps as " << (naming == 0 ? "/.../floor" : name) << (by_hand ? " by hand" : "") << "\n";
  for (int i = 0; i < n; ++i)
    list += (i ? "," : "") + name + std::to_string(i) + ".yaml";
  std::vector<double> heights;
  if (!by_hand)
  {
    sim::resetWorld();
    sim::World& w = sim::world();
    w.spin_cost_ns = MS;
    startNode("save_maps", save_maps_main, {"-f", name});
    if (s.flip())
      w.advance(0.2);
    PBT_CHECK(!w.finished && !w.crashed, "early", "the saver ended before the maps came");
    w.publish("/maps", set);
    w.advance(0.2);
    alive();
    PBT_CHECK(w.finished && w.exit_code == 0, "unfinished", "the saver has not finished");
    w.stop();
    for (auto& m : set.maps)
      heights.push_back(m.info.origin.position.z);
  }
  else
    for (int i = 0; i < n; ++i)
    {
      auto& m = set.maps[i];
      const bool negate = s.flip(), has_height = s.chance(2, 3), own_dir = naming == 0 && s.flip();
      const int mode = s.weighted({2, 1, 1});
      std::ofstream img(name + std::to_string(i) + ".pgm", std::ios::binary);
      img << "P5\n" << m.info.width << " " << m.info.height << "\n255\n";
      for (int y = m.info.height - 1; y >= 0; --y)
        for (unsigned x = 0; x < m.info.width; ++x)
        {
          const int v = m.data[x + y * m.info.width];
          const int grey = v == 0 ? 250 : v == 100 ? 5 : 150;
          img.put(static_cast<char>(negate ? 255 - grey : grey));
        }
      std::ofstream y(name + std::to_string(i) + ".yaml");
      const std::string leaf = "floor" + std::to_string(i) + ".pgm";
      y.precision(17);
      y << "image: " << (own_dir ? scratch.dir + "/" + leaf : leaf) << "\nresolution: " << m.info.resolution << "\norigin: [" << m.info.origin.position.x << ", " << m.info.origin.position.y << ", " << 2 * std::atan2(m.info.origin.orientation.z, m.info.origin.orientation.w) << "]\nnegate: " << negate << "\noccupied_thresh: 0.65\nfree_thresh: 0.196\n";
      if (mode)
        y << "mode: " << (mode == 1 ? "trinary" : "scale") << "\n";
      if (has_height)
        y << "height: " << m.info.origin.position.z << "\n";
      else
        m.info.origin.position.z = 0;
      heights.push_back(m.info.origin.position.z);
      if (mode == 2)
        for (auto& v : m.data)
          if (v == -1)
            v = 48;  // (255 - 150) / 255 between the thresholds
    }
  sim::resetWorld();
  sim::World& w = sim::world();
  w.setParam("/tie_maps/map_files", list);
  const std::string frame = s.pick({std::string("map"), std::string("odom")});
  if (frame != "map" || s.flip())
    w.setParam("/tie_maps/frame_id", frame);
  auto tied = w.listen<Maps>("/maps");
  std::vector<decltype(w.listen<OccupancyGrid>("/map0"))> each;
  for (int i = 0; i < n; ++i)
    each.push_back(w.listen<OccupancyGrid>("/map" + std::to_string(i)));
  startNode("tie_maps", tie_maps_main);
  w.settle();
  alive();
  PBT_CHECK(tied->size() == 1, "tied", tied->size() << " map sets");
  const Maps& got = tied->back().second;
  PBT_CHECK(static_cast<int>(got.maps.size()) == n, "count", got.maps.size() << " maps of " << n);
  for (int i = 0; i < n; ++i)
  {
    PBT_CHECK(each[i]->size() == 1, "single", each[i]->size() << " maps on map" << i);
    for (const OccupancyGrid* g : std::initializer_list<const OccupancyGrid*>{&got.maps[i], &each[i]->back().second})
    {
      const auto& want = set.maps[i];
      PBT_CHECK(g->header.frame_id == frame, "frame", g->header.frame_id);
      PBT_CHECK(g->info.width == want.info.width && g->info.height == want.info.height, "size", g->info.width << "x" << g->info.height);
      PBT_CHECK(std::abs(g->info.resolution - want.info.resolution) < 1e-6, "resolution", g->info.resolution);
      PBT_CHECK(std::abs(g->info.origin.position.x - want.info.origin.position.x) < 1e-5 && std::abs(g->info.origin.position.y - want.info.origin.position.y) < 1e-5, "origin", g->info.origin.position.x << " " << g->info.origin.position.y);
      PBT_CHECK(std::abs(g->info.origin.position.z - heights[i]) < 1e-5, "height", g->info.origin.position.z << " instead of " << heights[i]);
      const double turn = g->info.origin.orientation.z * want.info.origin.orientation.z + g->info.origin.orientation.w * want.info.origin.orientation.w;
      PBT_CHECK(std::abs(std::abs(turn) - 1) < 1e-9, "yaw", "");
      for (size_t k = 0; k < want.data.size(); ++k)
        PBT_CHECK(want.data[k] > 0 && want.data[k] < 100 ? std::abs(g->data[k] - want.data[k]) <= 1 && g->data[k] > 0 && g->data[k] < 100 : g->data[k] == want.data[k], "cell", "cell " << k % want.info.width << "," << k / want.info.width << " of map " << i << " is " << static_cast<int>(g->data[k]) << " instead of " << static_cast<int>(want.data[k]));
    }
    std::set<int> kinds(set.maps[i].data.begin(), set.maps[i].data.end());
    if (kinds.size() == 3)
      c.nontrivial();
  }
  w.stop();
}

// ------------------------------------------------------------------ floors
struct Cell
{
  int x, y, z;
};
PBT_FACET(floors, 1, "clouds with one to three floors, walls, holes and noise anywhere in space, all parameters; non-trivial: a floor with walls")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  sim::World& w = sim::world();
  w.setParam("/neonavigation_compatible", 1);
  const auto param = [&](const char* n, const XmlRpc::XmlRpcValue& v)
  { w.setParam(std::string("/pointcloud_to_maps/") + n, v); };
  const double grid = s.pick({0.05, 0.1, 0.25});
  const int rh = s.irange(2, 12), fh = s.irange(0, 2), ft = s.irange(0, 3);
  const double rate = s.pick({0.5, 0.3, 0.9}), area_rate = s.pick({0.8, 0.3, 0.1});
  const double min_area = s.pick({0.0, 4.5, 20.5}) * grid * grid;
  param("grid", grid);
  param("robot_height", rh * grid);
  param("floor_height", fh * grid);
  param("floor_tolerance", ft * grid);
  param("points_thresh_rate", rate);
  param("floor_area_thresh_rate", area_rate);
  param("min_floor_area", min_area);
  auto out = w.listen<Maps>("/maps");
  startNode("pointcloud_to_maps", pointcloud_to_maps_main);
  std::vector<Cell> pts;
  const bool shifted = s.flip();
  const int bx = shifted ? s.irange(-60, 60) : 0, by = shifted ? s.irange(-60, 60) : 0, bz = shifted ? s.irange(-40, 40) : 0;
  log << "grid " << grid << " robot " << rh << " floor " << fh << " tolerance " << ft << " rates " << rate << " " << area_rate << " area " << min_area << " at " << bx << "," << by << "," << bz << "\n";
  const int floors = s.irange(1, 3);
  int z = bz;
  for (int f = 0; f < floors; ++f)
  {
    const int x0 = bx + s.irange(0, 5), y0 = by + s.irange(0, 5), nx = s.irange(1, 12), ny = s.irange(1, 12);
    const int wall = s.irange(0, 30), hole = s.irange(0, 30), slope = s.chance(1, 6);
    for (int x = x0; x < x0 + nx; ++x)
      for (int y = y0; y < y0 + ny; ++y)
      {
        if (s.chance(hole, 100))
          continue;
        const int base = z + (slope ? (x - x0) / 3 : 0);
        pts.push_back({x, y, base + (s.chance(1, 8) ? s.irange(-1, 1) : 0)});
        if (s.chance(wall, 100))
        {
          const int a = s.irange(1, 6), b = s.irange(a, 12);
          for (int k = a; k <= b; ++k)
            pts.push_back({x, y, base + k});
        }
      }
    log << " floor " << nx << "x" << ny << " at " << x0 << "," << y0 << "," << z << " walls " << wall << "% holes " << hole << "%" << (slope ? " slope" : "") << "\n";
    z += s.irange(1, 20);
  }
  const int noise = s.weighted({2, 1}) == 0 ? 0 : s.irange(1, 10);
  for (int k = 0; k < noise; ++k)
    pts.push_back({bx + s.irange(-5, 20), by + s.irange(-5, 20), bz + s.irange(-10, 40)});
  sensor_msgs::PointCloud2 m;
  m.header.frame_id = "map";
  sensor_msgs::PointCloud2Modifier mod(m);
  mod.setPointCloud2FieldsByString(1, "xyz");
  mod.resize(pts.size());
  m.width = pts.size();
  m.height = 1;
  {
    sensor_msgs::PointCloud2Iterator<float> ix(m, "x"), iy(m, "y"), iz(m, "z");
    for (auto& p : pts)
    {
      *ix = (p.x + 0.5 + s.sym(0.4)) * grid;
      *iy = (p.y + 0.5 + s.sym(0.4)) * grid;
      *iz = (p.z + 0.5 + s.sym(0.4)) * grid;
      ++ix, ++iy, ++iz;
    }
  }
  w.publish("/mapcloud", m);
  w.settle();
  alive();
  PBT_CHECK(out->size() == 1, "published", out->size() << " map sets");
  const Maps& got = out->back().second;
  if (pts.empty())
  {
    PBT_CHECK(got.maps.empty(), "phantom", "floors in an empty cloud");
    return;
  }
  int lo[3] = {pts[0].x, pts[0].y, pts[0].z}, hi[3] = {pts[0].x, pts[0].y, pts[0].z};
  std::map<int, int> hist;
  for (auto& p : pts)
  {
    const int v[3] = {p.x, p.y, p.z};
    for (int k = 0; k < 3; ++k)
    {
      lo[k] = std::min(lo[k], v[k]);
      hi[k] = std::max(hi[k], v[k]);
    }
    ++hist[p.z];
  }
  int most = 0;
  for (auto& h : hist)
    most = std::max(most, h.second);
  const int dense = static_cast<int>(most * rate);
  typedef std::pair<int, int> XY;
  struct Floor
  {
    std::set<XY> free, wall;
  };
  std::map<int, Floor> level;
  int best = 0;
  for (auto& h : hist)
    if (h.second > dense)
    {
      Floor& f = level[h.first];
      for (auto& p : pts)
        if (std::abs(p.z - h.first) <= fh)
          f.free.insert({p.x, p.y});
        else if (p.z > h.first + fh + ft && p.z <= h.first + rh)
          f.wall.insert({p.x, p.y});
      for (auto& k : f.wall)
        f.free.erase(k);
      best = std::max<int>(best, f.free.size());
    }
  const auto area = [&](int i)
  { return level.count(i) ? static_cast<int>(level[i].free.size()) : 0; };
  std::vector<int> cand;
  bool unsure = false;
  for (auto& l : level)
  {
    const int a = l.second.free.size();
    const double limit = best * area_rate;
    unsure = unsure || std::abs(a - limit) < 1e-3;
    if (area(l.first - 1) <= a && area(l.first + 1) <= a && a > limit)
      cand.push_back(l.first);
  }
  if (unsure)
    return;
  // levels next to each other are one slope: the lower one takes the floor of the upper one over
  bool slopes = false;
  for (size_t k = cand.size(); k-- > 1;)
    if (cand[k] - cand[k - 1] <= 1)
    {
      Floor &lower = level[cand[k - 1]], &upper = level[cand[k]];
      for (auto& q : upper.free)
      {
        lower.free.insert(q);
        lower.wall.erase(q);
      }
      upper.free.clear();
      slopes = true;
    }
  const auto levelOf = [&](const OccupancyGrid& g)
  { return static_cast<int>(std::lround(g.info.origin.position.z / grid)); };
  for (size_t k = 0; k < got.maps.size(); ++k)
  {
    const OccupancyGrid& g = got.maps[k];
    const int i = levelOf(g);
    PBT_CHECK(g.header.frame_id == "map", "frame", g.header.frame_id);
    PBT_CHECK(k == 0 || levelOf(got.maps[k - 1]) < i, "order", "floors are not in ascending order");
    PBT_CHECK(std::find(cand.begin(), cand.end(), i) != cand.end(), "phantom", "a floor at level " << i << " where there is none");
    PBT_CHECK(static_cast<int>(g.info.width) == hi[0] - lo[0] + 1 && static_cast<int>(g.info.height) == hi[1] - lo[1] + 1, "size", g.info.width << "x" << g.info.height << " for points over " << hi[0] - lo[0] + 1 << "x" << hi[1] - lo[1] + 1 << " cells");
    PBT_CHECK(std::abs(g.info.origin.position.x - lo[0] * grid) < 1e-6 && std::abs(g.info.origin.position.y - lo[1] * grid) < 1e-6, "origin", g.info.origin.position.x << "," << g.info.origin.position.y << " for points from " << lo[0] * grid << "," << lo[1] * grid);
    PBT_CHECK(std::abs(g.info.resolution - grid) < 1e-6, "resolution", "");
    const int W = g.info.width, H = g.info.height;
    const Floor& f = level[i];
    // how far each floor cell spreads over unseen cells: up to the walls, 5 cells at most
    std::set<XY> spread;
    for (auto& q : f.free)
    {
      int r = 6;
      for (auto& v : f.wall)
      {
        const int dx = v.first - q.first, dy = v.second - q.second, d2 = dx * dx + dy * dy;
        if (d2 < r * r)
          r = static_cast<int>(std::sqrt(static_cast<double>(d2)));
      }
      --r;
      for (int dx = -r; dx <= r; ++dx)
        for (int dy = -r; dy <= r; ++dy)
          if (dx * dx + dy * dy <= r * r)
            spread.insert({q.first + dx, q.second + dy});
    }
    for (int y = 0; y < H; ++y)
      for (int x = 0; x < W; ++x)
      {
        const int v = g.data[x + y * W];
        const XY q(x + lo[0], y + lo[1]);
        if (f.wall.count(q))
          PBT_CHECK(v == 100, "wall", "cell " << x << "," << y << " of level " << i << " has points at the robot's height and is " << v);
        else if (f.free.count(q))
          PBT_CHECK(v == 0, "floor", "cell " << x << "," << y << " of level " << i << " has floor points only and is " << v);
        else
          PBT_CHECK(v == (spread.count(q) ? 0 : -1), "unseen", "cell " << x << "," << y << " of level " << i << " has no points and is " << v);
      }
    if (!f.wall.empty() && f.free.size() >= 4)
      c.nontrivial();
  }
  if (slopes)
    c.label("slopes");
  for (int i : cand)
  {
    const double a = level[i].free.size() * grid * grid;
    if (std::abs(a - min_area) < 1e-6)
      continue;
    bool there = false;
    for (auto& g : got.maps)
      there = there || levelOf(g) == i;
    PBT_CHECK(there == (a > min_area), "floors", "the floor at level " << i << " of " << level[i].free.size() << " cells is " << (there ? "published" : "missing"));
  }
  c.label("floors: " + std::to_string(got.maps.size()));
}

// ------------------------------------------------------------------ meshes
double toTriangle(const Vector3d& p, const Vector3d* t)
{
  const Vector3d n = (t[1] - t[0]).cross(t[2] - t[0]);
  double best = 1e9;
  if (n.norm() > 1e-12)
  {
    const Vector3d u = n.normalized();
    const double d = (p - t[0]).dot(u);
    const Vector3d q = p - d * u;
    bool in = true;
    for (int k = 0; k < 3; ++k)
      in = in && (t[(k + 1) % 3] - t[k]).cross(q - t[k]).dot(n) >= 0;
    if (in)
      return std::abs(d);
  }
  for (int k = 0; k < 3; ++k)
  {
    const Vector3d e = t[(k + 1) % 3] - t[k];
    const double l = e.squaredNorm() > 0 ? std::min(1.0, std::max(0.0, (p - t[k]).dot(e) / e.squaredNorm())) : 0;
    best = std::min(best, (p - t[k] - l * e).norm());
  }
  return best;
}
PBT_FACET(mesh, 1, "triangle meshes and point files, scales, offsets, densities and cell sizes; non-trivial: a triangle with 30 points or more, none merged")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  const Scratch scratch;
  sim::resetWorld();
  sim::World& w = sim::world();
  w.setParam("/neonavigation_compatible", 1);
  const auto param = [&](const char* n, const XmlRpc::XmlRpcValue& v)
  { w.setParam(std::string("/obj_to_pointcloud/") + n, v); };
  const double density = s.pick({600.0, 50.0, 5.0}), scale = s.pick({1.0, 0.5, 2.0}), leaf = s.pick({0.05, 1e-4, 0.5});
  const Vector3d off = s.flip() ? Vector3d(0, 0, 0) : Vector3d(s.sym(5), s.sym(5), s.sym(5));
  const std::string frame = s.pick({std::string("map"), std::string("odom")});
  param("points_per_meter_sq", density);
  param("scale", scale);
  param("downsample_grid", leaf);
  param("offset_x", off.x());
  param("offset_y", off.y());
  param("offset_z", off.z());
  param("frame_id", frame);
  sim::random_seed = s.irange(0, 1 << 30);
  struct Tri
  {
    Vector3d v[3];
  };
  std::vector<Tri> tris;
  std::vector<Vector3d> loose;
  const int files = s.irange(1, 3);
  std::string list;
  double slot = 0;  // triangles lie apart, so that points can be told apart
  for (int f = 0; f < files; ++f)
  {
    const bool pcd = s.chance(1, 4);
    const std::string name = scratch.dir + "/m" + std::to_string(f) + (pcd ? ".pcd" : ".obj");
    list += (f ? "," : "") + name;
    std::ofstream o(name);
    o.precision(9);
    if (pcd)
    {
      const int n = s.irange(0, 6);
      o << "# .PCD v0.7\nVERSION 0.7\nFIELDS x y z\nSIZE 4 4 4\nTYPE F F F\nCOUNT 1 1 1\nWIDTH " << n << "\nHEIGHT 1\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS " << n << "\nDATA ascii\n";
      for (int k = 0; k < n; ++k)
      {
        const Vector3d p(slot + s.real(0, 1), s.sym(1), s.sym(1));
        o << p.x() << " " << p.y() << " " << p.z() << "\n";
        loose.push_back(p * scale + off);
        slot += 4;
      }
    }
    else
    {
      const int n = s.irange(0, 3);
      std::vector<std::array<int, 3>> faces;
      for (int k = 0; k < n; ++k)
      {
        Tri t;
        const double size = s.pick({1.0, 0.3, 0.05});
        for (auto& v : t.v)
        {
          v = Vector3d(slot + s.real(0, 1) * size, s.sym(size), s.sym(size));
          o << "v " << v.x() << " " << v.y() << " " << v.z() << "\n";
          v = v * scale + off;
        }
        if (s.chance(1, 6))
        {
          // no area
          t.v[2] = t.v[1];
          faces.push_back({3 * k + 1, 3 * k + 2, 3 * k + 2});
        }
        else
          faces.push_back({3 * k + 1, 3 * k + 2, 3 * k + 3});
        tris.push_back(t);
        slot += 4;
      }
      for (auto& a : faces)
        o << "f " << a[0] << " " << a[1] << " " << a[2] << "\n";
    }
  }
  param("objs", list);
  auto out = w.listen<sensor_msgs::PointCloud2>("/mapcloud");
  startNode("obj_to_pointcloud", obj_to_pointcloud_main);
  w.settle();
  alive();
  PBT_CHECK(out->size() == 1, "published", out->size() << " clouds");
  sensor_msgs::PointCloud2& m = out->back().second;
  PBT_CHECK(m.header.frame_id == frame, "frame", m.header.frame_id);
  log << tris.size() << " triangles " << loose.size() << " points density " << density << " scale " << scale << " cell " << leaf << " offset " << off.transpose() << " seed " << sim::random_seed << " -> " << m.width * m.height << " points\n";
  std::vector<std::vector<Vector3d>> per(tris.size());
  std::vector<int> hit(loose.size(), 0);
  sensor_msgs::PointCloud2Iterator<float> ix(m, "x"), iy(m, "y"), iz(m, "z");
  const double tol = leaf * std::sqrt(3.0) + 1e-5 * (1 + slot * scale);
  for (; ix != ix.end(); ++ix, ++iy, ++iz)
  {
    const Vector3d p(*ix, *iy, *iz);
    double best = 1e9;
    size_t who = 0;
    for (size_t k = 0; k < tris.size(); ++k)
    {
      const double d = toTriangle(p, tris[k].v);
      if (d < best)
      {
        best = d;
        who = k;
      }
    }
    size_t pt = loose.size();
    for (size_t k = 0; k < loose.size(); ++k)
      if ((p - loose[k]).norm() < best)
      {
        best = (p - loose[k]).norm();
        pt = k;
      }
    PBT_CHECK(best < tol, "surface", "a point at " << p.transpose() << " is " << best << " off the mesh");
    if (pt < loose.size())
      ++hit[pt];
    else
      per[who].push_back(p);
  }
  for (size_t k = 0; k < loose.size(); ++k)
    PBT_CHECK(hit[k] == 1, "points", "a point of a point file is there " << hit[k] << " times");
  for (size_t k = 0; k < tris.size(); ++k)
  {
    const Tri& t = tris[k];
    const double a = 0.5 * (t.v[1] - t.v[0]).cross(t.v[2] - t.v[0]).norm(), want = a * density, have = per[k].size(), eps = 1e-3 * want + 1e-3;
    PBT_CHECK(have <= std::floor(want + eps) + 1, "dense", have << " points on a triangle for " << want);
    if (leaf > 1e-3)
    {
      PBT_CHECK(have >= 1 || want < 1 + eps, "empty", "no points on a triangle for " << want);
      continue;
    }
    PBT_CHECK(have + 2 + want * 1e-2 >= std::floor(want - eps), "sparse", have << " points on a triangle for " << want);
    if (have < 30)
      continue;
    c.nontrivial();
    // uniform: the mean is the centroid, and each corner's quarter has a quarter of the points
    const Vector3d g = (t.v[0] + t.v[1] + t.v[2]) / 3;
    Vector3d mean = Vector3d::Zero();
    for (auto& p : per[k])
      mean += p / have;
    const double longest = std::max({(t.v[1] - t.v[0]).norm(), (t.v[2] - t.v[1]).norm(), (t.v[0] - t.v[2]).norm()});
    PBT_CHECK((mean - g).norm() < 7 * 0.35 * longest / std::sqrt(have), "uniform", "the mean is " << (mean - g).norm() << " off the centroid of " << have << " points");
    for (int q = 0; q < 3; ++q)
    {
      const Vector3d e1 = t.v[(q + 1) % 3] - t.v[q], e2 = t.v[(q + 2) % 3] - t.v[q], n = e1.cross(e2);
      int in = 0;
      for (auto& p : per[k])
      {
        const Vector3d d = p - t.v[q];
        const double u = d.cross(e2).dot(n) / n.squaredNorm(), v = e1.cross(d).dot(n) / n.squaredNorm();
        in += u + v < 0.5;
      }
      PBT_CHECK(std::abs(in - have / 4) < 7 * std::sqrt(have * 3 / 16) + 2, "uniform", in << " of " << have << " points in a quarter of a triangle");
    }
  }
}

PBT_FACET(mesh_fine, 1, "surfaces of hundreds of small triangles of two sizes, each expecting a fraction of a point or a few; non-trivial: an expected number that is not whole")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  const Scratch scratch;
  sim::resetWorld();
  sim::World& w = sim::world();
  w.setParam("/neonavigation_compatible", 1);
  const double density = s.pick({600.0, 50.0, 5.0}), scale = s.pick({1.0, 0.5, 2.0});
  w.setParam("/obj_to_pointcloud/points_per_meter_sq", density);
  w.setParam("/obj_to_pointcloud/scale", scale);
  w.setParam("/obj_to_pointcloud/downsample_grid", 1e-4);
  sim::random_seed = s.irange(0, 1 << 30);
  const std::string name = scratch.dir + "/fine.obj";
  const int n = s.irange(50, 300), files = s.irange(1, 2);
  double want[2];
  for (double& x : want)
    x = s.real(0.02, 3.0);
  const double tilt = s.sym(1.5);
  {
    std::ofstream o(name), o2(scratch.dir + "/fine2.obj");
    o.precision(9);
    o2.precision(9);
    int nv[2] = {0, 0};
    for (int k = 0; k < n; ++k)
    {
      for (int cls = 0; cls < 2; ++cls)
      {
        // a right-angled triangle of the wanted area; the two sizes are on different sides of x = 0
        const double leg = std::sqrt(2 * want[cls] / density) / scale, x = (cls ? -0.1 - leg : 0.1), y = k * leg * 1.1;
        std::ofstream& f = (files == 2 && k % 2) ? o2 : o;
        int& v = nv[files == 2 && k % 2];
        for (const Vector3d& p : {Vector3d(x, y, 0), Vector3d(x + leg, y, 0), Vector3d(x, y + leg, 0)})
          f << "v " << p.x() << " " << p.y() * std::cos(tilt) << " " << p.y() * std::sin(tilt) << "\n";
        v += 3;
      }
    }
    for (int j = 0; j < 2; ++j)
      for (int k = 1; k < nv[j]; k += 3)
        (j ? o2 : o) << "f " << k << " " << k + 1 << " " << k + 2 << "\n";
  }
  w.setParam("/obj_to_pointcloud/objs", files == 2 ? name + "," + scratch.dir + "/fine2.obj" : name);
  auto out = w.listen<sensor_msgs::PointCloud2>("/mapcloud");
  startNode("obj_to_pointcloud", obj_to_pointcloud_main);
  w.settle();
  alive();
  PBT_CHECK(out->size() == 1, "published", out->size() << " clouds");
  sensor_msgs::PointCloud2& m = out->back().second;
  double have[2] = {0, 0};
  for (sensor_msgs::PointCloud2Iterator<float> ix(m, "x"); ix != ix.end(); ++ix)
    ++have[*ix < 0];
  log << n << " triangles of each size in " << files << " files, density " << density << " scale " << scale << " seed " << sim::random_seed << ": " << have[0] << " and " << have[1] << " points\n";
  for (int cls = 0; cls < 2; ++cls)
  {
    const double frac = want[cls] - std::floor(want[cls]);
    if (frac > 0.01 && frac < 0.99)
      c.nontrivial();
    const double mean = n * want[cls], slack = 7 * std::sqrt(n * (frac * (1 - frac) + 0.01)) + 3 + 0.01 * mean;
    PBT_CHECK(std::abs(have[cls] - mean) < slack, "area", n << " triangles of " << want[cls] << " expected points each have " << have[cls] << " points");
  }
}
}  // namespace
