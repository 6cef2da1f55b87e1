// T06: recording, saving, loading and editing paths.
#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>

#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>

#include <interactive_markers/interactive_marker_server.h>
#include <nav_msgs/Path.h>
#include <ros/ros.h>
#include <sim/world.h>
#include <std_srvs/Empty.h>
#include <trajectory_tracker_msgs/ChangePath.h>
#include <trajectory_tracker_msgs/TrajectoryServerStatus.h>
#include <visualization_msgs/InteractiveMarkerFeedback.h>

#include "pbt.h"

int trajectory_recorder_main(int argc, char** argv);
int trajectory_saver_main(int argc, char** argv);
int trajectory_server_main(int argc, char** argv);

namespace
{
using nav_msgs::Path;
using pbt::Ctx;
using pbt::Src;
using Feedback = visualization_msgs::InteractiveMarkerFeedback;
const int64_t MS = 1000000;

// Files live in a directory of their own.
struct Scratch
{
  std::string dir;
  Scratch()
  {
    const char* base = getenv("PBT_TMP");  // removed when the check ends
    std::string t = std::string(base ? base : "/tmp") + "/path_XXXXXX";
    PBT_CHECK(mkdtemp(&t[0]), "harness", "no scratch directory");
    dir = t;
  }
  ~Scratch()
  {
    for (const char* n : {"a.path", "b.path", "c.path"})
      unlink((dir + "/" + n).c_str());
    rmdir(dir.c_str());
  }
};
std::string bytesOf(const Path& p)
{
  std::string b(ros::serialization::serializationLength(p), 0);
  ros::serialization::OStream o(reinterpret_cast<uint8_t*>(&b[0]), b.size());
  ros::serialization::serialize(o, p);
  return b;
}
std::string slurp(const std::string& f)
{
  std::ifstream i(f, std::ios::binary);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
void dump(const std::string& f, const std::string& b)
{
  std::ofstream o(f, std::ios::binary);
  o << b;
}
bool same(const geometry_msgs::Pose& a, const geometry_msgs::Pose& b)
{
  return a.position.x == b.position.x && a.position.y == b.position.y && a.position.z == b.position.z && a.orientation.x == b.orientation.x && a.orientation.y == b.orientation.y && a.orientation.z == b.orientation.z && a.orientation.w == b.orientation.w;
}
Path randomPath(Src& s)
{
  Path p;
  p.header.frame_id = s.pick({std::string("map"), std::string("odom"), std::string(""), std::string("a/long frame_name \xc3\xa9")});
  p.header.seq = s.irange(0, 1000);
  p.header.stamp = ros::Time(s.irange(0, 100), s.irange(0, 999999999));
  const int n = s.weighted({1, 1, 6}) ? s.weighted({1, 5}) ? s.irange(2, 30) : 1 : 0;
  double x = s.sym(10), y = s.sym(10);
  for (int i = 0; i < n; ++i)
  {
    geometry_msgs::PoseStamped q;
    q.header.frame_id = s.chance(1, 8) ? "other" : p.header.frame_id;
    q.header.seq = i;
    q.header.stamp = ros::Time(i, 5);
    x += s.sym(1);
    y += s.sym(1);
    q.pose.position.x = x;
    q.pose.position.y = y;
    q.pose.position.z = s.sym(1);
    const double a = s.sym(3);
    q.pose.orientation.z = std::sin(a / 2);
    q.pose.orientation.w = std::cos(a / 2);
    p.poses.push_back(q);
  }
  return p;
}
void startNode(const std::string& name, int (*entry)(int, char**))
{
  sim::World& w = sim::world();
  w.node = name;
  w.start([entry]
          { char n[] = "n"; char* a[] = {n, nullptr}; return entry(1, a); });
  w.settle();
}
void alive()
{
  sim::World& w = sim::world();
  PBT_CHECK(!w.crashed, "crash", "the node ended: " << w.crash_what);
}

PBT_FACET(record, 2, "robot motions with stops, jumps and height changes, intervals, clear requests, lost transforms; non-trivial: five poses recorded")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  sim::resetWorld();
  sim::World& w = sim::world();
  w.setParam("/neonavigation_compatible", 1);
  const auto param = [&](const char* n, const XmlRpc::XmlRpcValue& v)
  { w.setParam(std::string("/trajectory_recorder/") + n, v); };
  const double gap = s.pick({0.3, 0.05, 1.0, 0.0});
  const std::string global = s.pick({std::string("map"), std::string("odom")}), robot = s.pick({std::string("base_link"), std::string("robot")});
  param("dist_interval", gap);
  param("frame_global", global);
  param("frame_robot", robot);
  auto out = w.listen<Path>("/path");
  double x = s.sym(5), y = s.sym(5), z = s.sym(1), a = s.sym(3);
  struct Sample
  {
    int64_t t;
    geometry_msgs::Pose p;
  };
  std::vector<Sample> samples;
  double fastest = 0;  // the longest step between samples
  int64_t moved_at = 0;
  const auto put = [&]
  {
    geometry_msgs::Pose p;
    p.position.x = x;
    p.position.y = y;
    p.position.z = z;
    p.orientation.z = std::sin(a / 2);
    p.orientation.w = std::cos(a / 2);
    const double o[3] = {x, y, z}, q[4] = {0, 0, p.orientation.z, p.orientation.w};
    w.setTf(global.c_str(), robot.c_str(), w.now, o, q, false);
    samples.push_back({w.now, p});
  };
  const bool late = s.chance(1, 4);
  if (!late)
    put();
  log << "interval " << gap << " " << global << "->" << robot << (late ? " robot late" : "") << "\n";
  startNode("trajectory_recorder", trajectory_recorder_main);
  std::vector<geometry_msgs::PoseStamped> kept;  // since the last clear
  size_t seen = 0, from = 0;                      // first sample a new pose may come from
  int recorded = 0;
  const auto check = [&]
  {
    alive();
    for (; seen < out->size(); ++seen)
    {
      const Path& p = (*out)[seen].second;
      PBT_CHECK(p.header.frame_id == global, "frame", "path in '" << p.header.frame_id << "'");
      PBT_CHECK(p.poses.size() == kept.size() + 1, "append", "a path of " << p.poses.size() << " poses after one of " << kept.size());
      for (size_t i = 0; i < kept.size(); ++i)
        PBT_CHECK(same(p.poses[i].pose, kept[i].pose), "history", "pose " << i << " changed");
      const auto& q = p.poses.back();
      PBT_CHECK(q.header.frame_id == global, "frame", "pose in '" << q.header.frame_id << "'");
      size_t k = from;
      // q and -q are the same attitude
      const auto turned = [&](const geometry_msgs::Pose& p)
      { return std::abs(std::abs(p.orientation.z * q.pose.orientation.z + p.orientation.w * q.pose.orientation.w) - 1); };
      while (k < samples.size() && !(turned(samples[k].p) < 1e-9 && std::abs(samples[k].p.position.x - q.pose.position.x) < 1e-9 && std::abs(samples[k].p.position.y - q.pose.position.y) < 1e-9 && std::abs(samples[k].p.position.z - q.pose.position.z) < 1e-9))
        ++k;
      PBT_CHECK(k < samples.size(), "pose", "recorded " << q.pose.position.x << " " << q.pose.position.y << " where the robot has not been since");
      from = k;
      if (!kept.empty())
      {
        const double d = std::hypot(q.pose.position.x - kept.back().pose.position.x, q.pose.position.y - kept.back().pose.position.y);
        PBT_CHECK(d > gap - 1e-5, "too-close", "recorded " << d << " m after the last pose");
        PBT_CHECK(d <= gap + 3 * fastest + 1e-5, "gap", "recorded " << d << " m after the last pose, the steps are " << fastest);
      }
      kept.push_back(q);
      ++recorded;
    }
  };
  const int n = s.irange(1, 8);
  for (int i = 0; i < n; ++i)
  {
    const int what = s.weighted({6, 1, 1, 1});
    if (what == 1 && !samples.empty())
    {
      std_srvs::EmptyRequest rq;
      std_srvs::EmptyResponse rs;
      bool done = false;
      check();
      w.call("/trajectory_recorder/clear_path", rq, rs, done, 0.1);
      PBT_CHECK(done, "clear", "the clear request was not served");
      check();
      kept.clear();
      log << w.now / MS << " clear\n";
      w.advanceNs(45 * MS);
      check();
      PBT_CHECK(kept.size() == 1, "restart", kept.size() << " poses recorded after clearing");
      continue;
    }
    if (what == 2)
    {
      log << w.now / MS << " transform lost\n";
      w.tf_blackout = true;
      const size_t before = out->size();
      w.advanceNs(50 * MS);
      const size_t mid = out->size();
      w.advanceNs(s.irange(100, 500) * MS);
      PBT_CHECK(mid - before <= 1 && out->size() == mid, "lost", "recorded without the transform");
      w.tf_blackout = false;
      w.advanceNs(250 * MS);
      check();
      continue;
    }
    // a stretch of motion
    const double v = s.pick({1.0, 0.0, 0.3, 3.0}), turn = s.sym(2), climb = s.chance(1, 4) ? s.sym(1) : 0;
    const int64_t step = s.pick({10, 20, 5}) * MS;
    const int m = s.irange(1, 60);
    if (s.chance(1, 8))
    {
      const double jx = s.sym(3), jy = s.sym(3);
      x += jx;
      y += jy;
      fastest = std::max(fastest, std::hypot(jx, jy));
    }
    // the node samples every 20 ms
    fastest = std::max(fastest, std::abs(v) * (20 * MS + step) * 1e-9);
    for (int k = 0; k < m; ++k)
    {
      a += turn * step * 1e-9;
      x += v * std::cos(a) * step * 1e-9;
      y += v * std::sin(a) * step * 1e-9;
      z += climb * step * 1e-9;
      put();
      w.advanceNs(step);
    }
    (void)moved_at;
    check();
    w.advanceNs((late && i == 0 ? 300 : 45) * MS);
    check();
    log << w.now / MS << " at " << x << " " << y << " recorded " << kept.size() << "\n";
    PBT_CHECK(!kept.empty(), "nothing", "nothing is recorded");
    const double left = std::hypot(x - kept.back().pose.position.x, y - kept.back().pose.position.y);
    PBT_CHECK(left <= gap + 1e-5, "behind", "the robot is " << left << " m from the last recorded pose");
  }
  if (recorded >= 5)
    c.nontrivial();
}

PBT_FACET(files, 3, "paths of any size saved, loaded with and without smoothing, edited; missing, cut, corrupt and unwritable files; non-trivial: a path survived saving and loading")
{
  Src& s = c.src;
  pbt::Scribe log(c);
  const Scratch scratch;
  const std::string file = scratch.dir + "/a.path", bad = scratch.dir + "/b.path";
  Path path = randomPath(s);
  const bool save = s.chance(2, 3);
  if (save)
  {
    sim::resetWorld();
    sim::World& w = sim::world();
    w.setParam("/neonavigation_compatible", 1);
    const int kind = s.weighted({6, 1, 1});
    const std::string target = kind == 0 ? file : kind == 1 ? scratch.dir + "/none/a.path" : "/dev/full";
    w.setParam("/trajectory_saver/file", target);
    if (kind == 0 && s.flip())
      dump(file, std::string(s.irange(0, 5000), 'x'));
    log << "save " << path.poses.size() << " poses to " << (kind == 0 ? "a file" : kind == 1 ? "a missing directory" : "a full device") << "\n";
    startNode("trajectory_saver", trajectory_saver_main);
    if (s.flip())
      w.advance(0.5);
    alive();
    PBT_CHECK(!w.finished, "early", "the saver ended before a path came");
    w.publish("/path", path);
    if (s.chance(1, 3))
      w.publish("/path", randomPath(s));
    w.advance(1.0);
    alive();
    if (kind)
    {
      PBT_CHECK(!w.finished, "lost", "the saver reports success but the path is not saved");
      c.label("unwritable file");
      w.stop();
      return;
    }
    PBT_CHECK(w.finished && w.exit_code == 0, "unfinished", "the saver has not finished");
    w.stop();
    PBT_CHECK(slurp(file) == bytesOf(path), "content", "the file differs from the path");
  }
  else
    dump(file, bytesOf(path));

  sim::resetWorld();
  sim::World& w = sim::world();
  w.setParam("/neonavigation_compatible", 1);
  const double hz = s.pick({5.0, 20.0}), smooth = s.weighted({2, 1}) == 0 ? 0.0 : s.pick({1.0, 5.0, 0.3});
  w.setParam("/trajectory_server/hz", hz);
  if (smooth > 0 || s.flip())
    w.setParam("/trajectory_server/filter_step", smooth);
  auto out = w.listen<Path>("/path");
  auto status = w.listen<trajectory_tracker_msgs::TrajectoryServerStatus>("/trajectory_server/status");
  startNode("trajectory_server", trajectory_server_main);
  log << "server hz " << hz << " smooth " << smooth << "\n";
  Path now;  // what the server holds
  bool loaded = false, certain = true;
  std::string named = "a.path";
  int id = 0;
  const int n = s.irange(1, 8);
  for (int i = 0; i < n; ++i)
  {
    out->clear();
    const int what = i == 0 ? 0 : s.weighted({2, 2, 3, 1});
    if (what == 0 || what == 1)
    {
      trajectory_tracker_msgs::ChangePathRequest rq;
      trajectory_tracker_msgs::ChangePathResponse rs;
      bool good = what == 0 || (i == 1 && !loaded);
      rq.id = id = s.irange(-5, 100);
      if (good)
      {
        if (i && s.flip())
        {
          path = randomPath(s);
          dump(file, bytesOf(path));
        }
        rq.filename = file;
        log << w.now / MS << " load " << path.poses.size() << " poses\n";
      }
      else
      {
        const int kind = s.weighted({1, 0, 1, 1});
        rq.filename = kind == 1 ? scratch.dir : kind == 0 ? scratch.dir + "/c.path" : bad;
        std::string b = bytesOf(path);
        if (kind == 2)
          b.resize(s.irange(0, b.size() - 1));
        else if (kind == 3)
        {
          b.resize(s.irange(1, 60));
          for (char& ch : b)
            ch = static_cast<char>(s.chance(1, 3) ? s.irange(0, 255) : 0xff);
        }
        if (kind >= 2)
          dump(bad, b);
        log << w.now / MS << " load " << (kind == 0 ? "a missing file" : kind == 1 ? "a directory" : kind == 2 ? "a cut file" : "a corrupt file") << " of " << b.size() << " bytes\n";
        // a corrupt file that happens to be a path is a path
        if (kind == 3)
          try
          {
            Path p;
            ros::serialization::IStream st(reinterpret_cast<uint8_t*>(&b[0]), b.size());
            ros::serialization::deserialize(st, p);
            continue;
          }
          catch (const std::exception&)
          {
          }
      }
      bool done = false;
      rs.success = false;
      const bool ok = w.call("/change_path", rq, rs, done, 1.0);
      alive();
      PBT_CHECK(done, "request", "the request was not served");
      w.settle();
      if (!good)
      {
        PBT_CHECK(!ok || !rs.success, "reported", "success reported for a file that cannot be loaded");
        PBT_CHECK(out->empty(), "published", "a path is published after a failed load");
        c.label("bad file");
        certain = false;
        loaded = false;
        continue;
      }
      PBT_CHECK(ok && rs.success, "refused", "the file was not loaded");
      PBT_CHECK(out->size() == 1, "published", out->size() << " paths published for a load");
      const Path& p = out->back().second;
      PBT_CHECK(p.header.frame_id == path.header.frame_id && p.header.stamp == out->back().first, "header", p.header.frame_id << " " << p.header.stamp);
      PBT_CHECK(p.poses.size() == path.poses.size(), "poses", p.poses.size() << " poses of " << path.poses.size());
      double fx = 0, fy = 0, ix = 0, iy = 0;
      for (size_t k = 0; k < p.poses.size(); ++k)
      {
        const auto& want = path.poses[k];
        const auto& got = p.poses[k];
        PBT_CHECK(got.header.frame_id == want.header.frame_id && got.header.stamp == want.header.stamp && got.header.seq == want.header.seq, "pose-header", "pose " << k);
        if (smooth > 0)
        {
          // first-order low-pass of time constant `smooth` steps and unit gain, at rest at the first pose
          if (k == 0)
          {
            fx = ix = want.pose.position.x;
            fy = iy = want.pose.position.y;
          }
          const double g = 1 / (1 + 2 * smooth), keep = (2 * smooth - 1) * g;
          fx = keep * fx + g * ((keep + 2) * want.pose.position.x - keep * ix);
          fy = keep * fy + g * ((keep + 2) * want.pose.position.y - keep * iy);
          ix = want.pose.position.x;
          iy = want.pose.position.y;
          PBT_CHECK(std::abs(got.pose.position.x - fx) < 1e-3 && std::abs(got.pose.position.y - fy) < 1e-3, "smoothed", "pose " << k << ": " << got.pose.position.x << "," << got.pose.position.y << " instead of " << fx << "," << fy);
          geometry_msgs::Pose q = got.pose;
          q.position.x = want.pose.position.x;
          q.position.y = want.pose.position.y;
          PBT_CHECK(same(q, want.pose), "smoothed", "height or attitude of pose " << k << " changed");
        }
        else
          PBT_CHECK(same(got.pose, want.pose), "changed", "pose " << k << " changed");
      }
      PBT_CHECK(sim::markers().size() == p.poses.size(), "markers", sim::markers().size() << " markers for " << p.poses.size() << " poses");
      now = p;
      named = file;
      loaded = certain = true;
      if (save && p.poses.size() >= 2)
        c.nontrivial();
    }
    else if (what == 2)
    {
      // the user edits a marker, possibly one that is about to go
      Feedback f;
      const int size = now.poses.size();
      const int k = size ? s.irange(0, size - 1) : 0;
      f.marker_name = std::to_string(k);
      const int act = s.weighted({3, 2, 2, 1});
      f.event_type = act == 0 ? Feedback::POSE_UPDATE : act == 3 ? Feedback::MOUSE_UP : Feedback::MENU_SELECT;
      f.menu_entry_id = act == 1 ? 1 : 2;
      f.pose.position.x = s.sym(20);
      f.pose.position.y = s.sym(20);
      f.pose.orientation.w = 1;
      w.publish("/trajectory_server/feedback", f);
      w.advance(0.5);
      alive();
      log << w.now / MS << (act == 0 ? " move " : act == 1 ? " delete " : act == 2 ? " add " : " drop ") << k << " of " << size << "\n";
      if (!certain || !loaded || k >= size)
        continue;
      c.label("edited");
      if (act == 0)
        now.poses[k].pose = f.pose;
      else if (act == 1)
        now.poses.erase(now.poses.begin() + k);
      else if (act == 2)
        now.poses.insert(now.poses.begin() + k, geometry_msgs::PoseStamped(now.poses[k]));
      PBT_CHECK(out->size() == (act == 0 ? 0u : 1u), "edit", out->size() << " paths published");
      if (act)
      {
        const Path& p = out->back().second;
        PBT_CHECK(p.poses.size() == now.poses.size(), "edit", p.poses.size() << " poses instead of " << now.poses.size());
        for (size_t m = 0; m < p.poses.size(); ++m)
          PBT_CHECK(same(p.poses[m].pose, now.poses[m].pose), "edit", "pose " << m << " differs");
        PBT_CHECK(sim::markers().size() == p.poses.size(), "markers", sim::markers().size() << " markers for " << p.poses.size() << " poses");
      }
    }
    else
    {
      status->clear();
      const double dt = s.pick({1.0, 0.5});
      w.advance(dt);
      alive();
      PBT_CHECK(status->size() + 1 >= dt * hz && status->size() <= dt * hz + 1, "status-rate", status->size() << " reports in " << dt << " s at " << hz << " Hz");
      if (certain && loaded)
        for (auto& e : *status)
          PBT_CHECK(e.second.filename == named && e.second.id == id && e.second.header.frame_id == now.header.frame_id, "status", e.second.filename << " " << e.second.id);
    }
  }
  w.stop();
}
}  // namespace
