#ifndef SHIM_DIAGNOSTIC_UPDATER_H
#define SHIM_DIAGNOSTIC_UPDATER_H
#include <cstdarg>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <boost/function.hpp>
#include <diagnostic_msgs/DiagnosticArray.h>
#include <diagnostic_msgs/DiagnosticStatus.h>
#include <ros/ros.h>
namespace diagnostic_updater
{
class DiagnosticStatusWrapper : public diagnostic_msgs::DiagnosticStatus
{
public:
  void summary(unsigned char lvl, const std::string& s)
  {
    level = lvl;
    message = s;
  }
  void summaryf(unsigned char lvl, const char* f, ...)
  {
    char b[1000];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof(b), f, a);
    va_end(a);
    summary(lvl, b);
  }
  void clearSummary() { summary(0, ""); }
  template <class T>
  void add(const std::string& key, const T& v)
  {
    std::ostringstream o;
    o << v;
    diagnostic_msgs::KeyValue kv;
    kv.key = key;
    kv.value = o.str();
    values.push_back(kv);
  }
  void addf(const std::string& key, const char* f, ...)
  {
    char b[1000];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof(b), f, a);
    va_end(a);
    add(key, std::string(b));
  }
};
class Updater
{
public:
  explicit Updater(ros::NodeHandle h = ros::NodeHandle(), ros::NodeHandle = ros::NodeHandle("~"), const std::string& = "")
  {
    pub_ = h.advertise<diagnostic_msgs::DiagnosticArray>("/diagnostics", 1);
    ros::NodeHandle("~").param("diagnostic_period", period_, 1.0);
    next_ = ros::Time::now() + ros::Duration(period_);
  }
  void setHardwareID(const std::string& id) { id_ = id; }
  template <class T>
  void add(const std::string& name, T* c, void (T::*f)(DiagnosticStatusWrapper&))
  {
    tasks_.push_back({name, [c, f](DiagnosticStatusWrapper& s) { (c->*f)(s); }});
  }
  void update()
  {
    if (ros::Time::now() >= next_)
      force_update();
  }
  void force_update()
  {
    next_ = ros::Time::now() + ros::Duration(period_);
    diagnostic_msgs::DiagnosticArray m;
    m.header.stamp = ros::Time::now();
    for (auto& t : tasks_)
    {
      DiagnosticStatusWrapper s;
      s.name = ros::this_node::getName().substr(1) + ": " + t.first;
      s.level = 2;
      s.message = "No message was set";
      s.hardware_id = id_;
      t.second(s);
      m.status.push_back(s);
    }
    pub_.publish(m);
  }

private:
  ros::Publisher pub_;
  double period_ = 1.0;
  ros::Time next_;
  std::string id_;
  std::vector<std::pair<std::string, std::function<void(DiagnosticStatusWrapper&)>>> tasks_;
};
}  // namespace diagnostic_updater
#endif
