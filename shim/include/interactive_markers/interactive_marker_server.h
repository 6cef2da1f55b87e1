#ifndef SHIM_INTERACTIVE_MARKERS_SERVER_H
#define SHIM_INTERACTIVE_MARKERS_SERVER_H
#include <map>
#include <string>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <ros/ros.h>
#include <visualization_msgs/InteractiveMarker.h>
#include <visualization_msgs/InteractiveMarkerFeedback.h>
namespace sim
{
// the markers a user sees
inline std::map<std::string, visualization_msgs::InteractiveMarker>& markers()
{
  static std::map<std::string, visualization_msgs::InteractiveMarker> m;
  return m;
}
}  // namespace sim
namespace interactive_markers
{
class InteractiveMarkerServer
{
public:
  using FeedbackCallback = boost::function<void(const visualization_msgs::InteractiveMarkerFeedbackConstPtr&)>;

private:
  struct Entry
  {
    visualization_msgs::InteractiveMarker m;
    FeedbackCallback cb;
  };
  std::map<std::string, Entry> shown_, pending_;
  ros::NodeHandle nh_;
  ros::Subscriber sub_;
  void feedback(const visualization_msgs::InteractiveMarkerFeedbackConstPtr& f)
  {
    auto it = shown_.find(f->marker_name);
    if (it == shown_.end())
      return;
    if (f->event_type == visualization_msgs::InteractiveMarkerFeedback::POSE_UPDATE)
    {
      it->second.m.pose = f->pose;
      sim::markers()[f->marker_name].pose = f->pose;
    }
    const FeedbackCallback cb = it->second.cb;
    if (cb)
      cb(f);
  }

public:
  explicit InteractiveMarkerServer(const std::string& ns, const std::string& = "", bool = false)
  {
    sim::markers().clear();
    sub_ = nh_.subscribe("/" + ns + "/feedback", 100, &InteractiveMarkerServer::feedback, this);
  }
  InteractiveMarkerServer(const InteractiveMarkerServer&) = delete;
  void insert(const visualization_msgs::InteractiveMarker& m, FeedbackCallback cb) { pending_[m.name] = {m, cb}; }
  void clear() { pending_.clear(); }
  void applyChanges()
  {
    shown_ = pending_;
    sim::markers().clear();
    for (auto& e : shown_)
      sim::markers()[e.first] = e.second.m;
  }
};
}  // namespace interactive_markers
#endif
