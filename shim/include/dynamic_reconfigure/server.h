// dynamic_reconfigure::Server: parameters are read (and clamped) at construction,
// setCallback calls the callback at once, the harness changes values with reconfigure().
#ifndef SHIM_DYNAMIC_RECONFIGURE_SERVER_H
#define SHIM_DYNAMIC_RECONFIGURE_SERVER_H
#include <algorithm>
#include <functional>
#include <boost/function.hpp>
#include <boost/bind.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <ros/ros.h>
#include <sim/world.h>
namespace dynamic_reconfigure
{
struct Clamp
{
  template <class T, class L>
  void operator()(const char*, T& v, L lo, L hi) const
  {
    if (v < static_cast<T>(lo))
      v = static_cast<T>(lo);
    if (v > static_cast<T>(hi))
      v = static_cast<T>(hi);
  }
  template <class T>
  void operator()(const char*, T&) const
  {
  }
};
template <class Config>
class Server
{
public:
  typedef boost::function<void(Config&, uint32_t)> CallbackType;
  explicit Server(const ros::NodeHandle& nh = ros::NodeHandle("~")) : nh_(nh), mutex_(own_) { init(); }
  Server(boost::recursive_mutex& m, const ros::NodeHandle& nh = ros::NodeHandle("~")) : nh_(nh), mutex_(m) { init(); }
  ~Server()
  {
    if (current() == this)
      current() = nullptr;
  }
  void setCallback(const CallbackType& cb)
  {
    boost::recursive_mutex::scoped_lock lock(mutex_);
    cb_ = cb;
    call(~0u);
  }
  void clearCallback() { cb_.clear(); }
  void updateConfig(const Config& c)
  {
    config_ = c;
    store();
  }
  void getConfigDefault(Config& c) { c = Config(); }
  static Server*& current()
  {
    static Server* s = nullptr;
    return s;
  }
  void apply(const std::function<void(Config&)>& edit)
  {
    boost::recursive_mutex::scoped_lock lock(mutex_);
    edit(config_);
    config_.forEachParam(Clamp());
    call(1);
    store();
  }
  const Config& config() const { return config_; }

private:
  struct Load
  {
    ros::NodeHandle& nh;
    template <class T, class... R>
    void operator()(const char* name, T& v, R...) const
    {
      nh.getParam(name, v);
    }
  };
  struct Store
  {
    ros::NodeHandle& nh;
    template <class T, class... R>
    void operator()(const char* name, T& v, R...) const
    {
      nh.setParam(name, v);
    }
  };
  void init()
  {
    current() = this;
    config_.forEachParam(Load{nh_});
    config_.forEachParam(Clamp());
    store();
  }
  void store() { config_.forEachParam(Store{nh_}); }
  void call(uint32_t level)
  {
    if (cb_)
      cb_(config_, level);
  }
  ros::NodeHandle nh_;
  Config config_;
  boost::recursive_mutex own_;
  boost::recursive_mutex& mutex_;
  CallbackType cb_;
};
// Harness side: returns false if no server exists.
template <class Config>
bool reconfigure(const std::function<void(Config&)>& edit)
{
  if (!Server<Config>::current())
    return false;
  sim::world().queue.push_back([edit]()
                               {
                                 if (Server<Config>::current())
                                   Server<Config>::current()->apply(edit);
                               });
  sim::world().settle();
  return true;
}
}  // namespace dynamic_reconfigure
#endif
