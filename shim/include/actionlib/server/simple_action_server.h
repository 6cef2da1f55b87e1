// actionlib's SimpleActionServer policy; the harness is the client (Peer).
#ifndef SHIM_SIMPLE_ACTION_SERVER_H
#define SHIM_SIMPLE_ACTION_SERVER_H
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <actionlib_msgs/GoalStatus.h>
#include <ros/ros.h>
#include <sim/world.h>
namespace actionlib
{
template <class Action>
struct GoalRecord
{
  typedef typename Action::Goal Goal;
  typedef typename Action::Result Result;
  typedef typename Action::Feedback Feedback;
  boost::shared_ptr<const Goal> goal;
  ros::Time stamp;
  int status = actionlib_msgs::GoalStatus::PENDING;
  std::string text;
  Result result;
  std::vector<Feedback> feedback;
  int terminal_count = 0;  // how often a final state was set
  std::string misuse;      // invalid state change asked for by the server
  bool done() const { return terminal_count > 0; }
};
template <class Action>
class SimpleActionServer
{
public:
  typedef typename Action::Goal Goal;
  typedef typename Action::Result Result;
  typedef typename Action::Feedback Feedback;
  typedef boost::shared_ptr<const Goal> GoalConstPtr;
  typedef GoalRecord<Action> Rec;
  typedef std::shared_ptr<Rec> H;
  SimpleActionServer(ros::NodeHandle n, std::string name, bool autostart) : name_(n.resolveName(name)), started_(autostart)
  {
    registry()[name_] = this;
  }
  ~SimpleActionServer()
  {
    auto it = registry().find(name_);
    if (it != registry().end() && it->second == this)
      registry().erase(it);
  }
  void start() { started_ = true; }
  void shutdown() { started_ = false; }
  void registerGoalCallback(boost::function<void()> cb) { goal_cb_ = cb; }
  void registerPreemptCallback(boost::function<void()> cb) { preempt_cb_ = cb; }
  boost::shared_ptr<const Goal> acceptNewGoal()
  {
    if (!new_goal_ || !next_)
      return boost::shared_ptr<const Goal>();
    if (isActive() && current_ && current_ != next_)
      finish(current_, actionlib_msgs::GoalStatus::PREEMPTED, Result(), "This goal was canceled because another goal was received by the simple action server");
    current_ = next_;
    new_goal_ = false;
    preempt_request_ = new_goal_preempt_request_;
    new_goal_preempt_request_ = false;
    current_->status = current_->status == actionlib_msgs::GoalStatus::RECALLING ? actionlib_msgs::GoalStatus::PREEMPTING : actionlib_msgs::GoalStatus::ACTIVE;
    current_->text = "This goal has been accepted by the simple action server";
    return current_->goal;
  }
  bool isNewGoalAvailable() { return new_goal_; }
  bool isPreemptRequested() { return preempt_request_; }
  bool isActive()
  {
    return current_ && (current_->status == actionlib_msgs::GoalStatus::ACTIVE || current_->status == actionlib_msgs::GoalStatus::PREEMPTING);
  }
  void setSucceeded(const Result& r = Result(), const std::string& t = "") { finish(current_, actionlib_msgs::GoalStatus::SUCCEEDED, r, t); }
  void setAborted(const Result& r = Result(), const std::string& t = "") { finish(current_, actionlib_msgs::GoalStatus::ABORTED, r, t); }
  void setPreempted(const Result& r = Result(), const std::string& t = "") { finish(current_, actionlib_msgs::GoalStatus::PREEMPTED, r, t); }
  void publishFeedback(const Feedback& f)
  {
    if (current_)
      current_->feedback.push_back(f);
  }
  static std::map<std::string, SimpleActionServer*>& registry()
  {
    static std::map<std::string, SimpleActionServer*> r;
    return r;
  }
  // what the transport would call
  void onGoal(const H& h)
  {
    if (!started_)
      return;
    if ((!current_ || h->stamp >= current_->stamp) && (!next_ || h->stamp >= next_->stamp))
    {
      if (next_ && (!current_ || next_ != current_))
        finish(next_, actionlib_msgs::GoalStatus::RECALLED, Result(), "This goal was canceled because another goal was received by the simple action server");
      next_ = h;
      new_goal_ = true;
      new_goal_preempt_request_ = false;
      if (isActive())
      {
        preempt_request_ = true;
        if (preempt_cb_)
          preempt_cb_();
      }
      if (goal_cb_)
        goal_cb_();
    }
    else
      finish(h, actionlib_msgs::GoalStatus::RECALLED, Result(), "stale");
  }
  void onCancel(const H& h)
  {
    if (!started_ || h->done())
      return;
    if (h->status == actionlib_msgs::GoalStatus::ACTIVE)
      h->status = actionlib_msgs::GoalStatus::PREEMPTING;
    else if (h->status == actionlib_msgs::GoalStatus::PENDING)
      h->status = actionlib_msgs::GoalStatus::RECALLING;
    if (h == current_)
    {
      preempt_request_ = true;
      if (preempt_cb_)
        preempt_cb_();
    }
    else if (h == next_)
      new_goal_preempt_request_ = true;
  }

private:
  void finish(const H& h, int status, const Result& r, const std::string& t)
  {
    if (!h)
      return;
    if (h->done())
    {
      h->misuse = "final state set twice: " + t;
      return;
    }
    h->status = status;
    h->result = r;
    h->text = t;
    ++h->terminal_count;
  }
  std::string name_;
  bool started_ = false;
  H current_, next_;
  bool new_goal_ = false, preempt_request_ = false, new_goal_preempt_request_ = false;
  boost::function<void()> goal_cb_, preempt_cb_;
};
// Harness side.
template <class Action>
std::shared_ptr<GoalRecord<Action>> sendGoal(const std::string& server, const typename Action::Goal& g)
{
  auto h = std::make_shared<GoalRecord<Action>>();
  h->goal = boost::make_shared<typename Action::Goal const>(g);
  h->stamp = sim::world().time();
  sim::world().queue.push_back([server, h]()
                               {
                                 auto& r = SimpleActionServer<Action>::registry();
                                 if (r.count(server))
                                   r[server]->onGoal(h);
                               });
  sim::world().settle();
  return h;
}
template <class Action>
void cancelGoal(const std::string& server, const std::shared_ptr<GoalRecord<Action>>& h)
{
  sim::world().queue.push_back([server, h]()
                               {
                                 auto& r = SimpleActionServer<Action>::registry();
                                 if (r.count(server))
                                   r[server]->onCancel(h);
                               });
  sim::world().settle();
}
}  // namespace actionlib
#endif
