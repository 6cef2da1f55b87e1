// A deterministic single-process stand-in for a ROS graph: simulated time, a
// topic bus, a parameter tree, services, timers, transforms and one node that
// runs its real main() as a fiber.  The harness is "everything else".
#ifndef SHIM_SIM_WORLD_H
#define SHIM_SIM_WORLD_H
#include <algorithm>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <boost/make_shared.hpp>
#include <boost/weak_ptr.hpp>
#include <boost/shared_ptr.hpp>
#include <ros/time.h>
#include <ros/serialization.h>
#include <xmlrpcpp/XmlRpcValue.h>

namespace sim
{
struct AnyMsg
{
  boost::shared_ptr<void const> ptr;
  std::string type;
  std::function<std::vector<uint8_t>()> bytes;
  explicit operator bool() const { return static_cast<bool>(ptr); }
};
template <class M>
AnyMsg makeAny(const boost::shared_ptr<M const>& m)
{
  AnyMsg a;
  a.ptr = m;
  a.type = M::dataType();
  const M* raw = m.get();
  boost::shared_ptr<M const> keep = m;
  a.bytes = [keep]()
  {
    std::vector<uint8_t> b(ros::serialization::serializationLength(*keep));
    ros::serialization::OStream s(b.data(), b.size());
    ros::serialization::serialize(s, *keep);
    return b;
  };
  (void)raw;
  return a;
}

struct Sub
{
  std::string topic, type;  // type "*" takes anything
  size_t qsize = 0;
  std::deque<std::pair<AnyMsg, std::string>> pending;
  std::function<void(const AnyMsg&, const std::string& publisher)> cb;
  boost::weak_ptr<void const> tracked;
  bool has_tracked = false;
  bool alive = true;
};
struct Pub
{
  std::string topic, type, node;
  bool latch = false;
  bool alive = true;
  bool has_latched = false;
  AnyMsg latched;
};
struct TimerImpl
{
  int64_t period = 0, next = 0, last_expected = 0, last_real = 0;
  bool oneshot = false, started = false, queued = false, alive = true;
  std::function<void(const ros::Time& last_e, const ros::Time& last_r, const ros::Time& cur_e, const ros::Time& cur_r)> cb;
};
struct Service
{
  std::function<bool(const void* req, void* res)> fn;
  const void* owner = nullptr;
};
struct TfSample
{
  int64_t t;
  double p[3], q[4];
};
struct TfEdge
{
  std::string parent;
  bool is_static = false;
  std::deque<TfSample> data;
};
struct NodeKilled
{
};
struct BusEvent
{
  int64_t t;
  uint64_t seq;
  std::string topic;
  AnyMsg msg;
};

class World
{
public:
  World();
  ~World();
  int64_t now = 1000000000000LL;
  bool shutdown = false;
  bool crashed = false;  // the node ended with an exception
  std::string crash_what;
  bool finished = false;  // the node's main returned
  int exit_code = 0;
  std::string node = "node";
  bool sim_time = true;
  int64_t spin_cost_ns = 0;  // time one spinOnce takes
  std::map<std::string, std::string> remap;
  std::vector<std::string> log;  // "L message" of the node's log lines
  bool keep_log = true;

  // ----- time
  ros::Time time() const { ros::Time t; t.fromNSec(now); return t; }
  // ----- parameters
  XmlRpc::XmlRpcValue params;
  XmlRpc::XmlRpcValue* findParam(const std::string& abs);
  void setParam(const std::string& abs, const XmlRpc::XmlRpcValue& v);
  bool eraseParam(const std::string& abs);
  // ----- bus
  std::vector<std::shared_ptr<Sub>> subs;
  std::vector<std::shared_ptr<Pub>> pubs;
  std::map<std::string, Service> services;
  std::vector<std::shared_ptr<TimerImpl>> timers;
  int64_t timer_latency_ns = 0;  // from the time a timer is due until its callback runs
  std::deque<std::function<void()>> queue;
  std::vector<std::function<void(const std::string& topic, const AnyMsg&, bool from_node)>> taps;
  uint64_t seq = 0;
  void addSub(const std::shared_ptr<Sub>& s);
  void addPub(const std::shared_ptr<Pub>& p);
  void deliver(const std::string& topic, const AnyMsg& m, const std::string& from, bool latched_from_pub);
  size_t subscriberCount(const std::string& topic) const;
  size_t publisherCount(const std::string& topic) const;
  bool invoke_one(const std::shared_ptr<Sub>& s);
  // The harness publishes (latched messages of the harness are redelivered to late subscribers).
  template <class M>
  void publish(const std::string& topic, const M& m, bool latch = false)
  {
    publishAny(topic, makeAny<M>(boost::make_shared<M const>(m)), latch);
  }
  void publishAny(const std::string& topic, const AnyMsg& m, bool latch = false);
  // The harness listens to everything the node says on a topic.
  template <class M>
  std::shared_ptr<std::vector<std::pair<ros::Time, M>>> listen(const std::string& topic)
  {
    auto out = std::make_shared<std::vector<std::pair<ros::Time, M>>>();
    external_subs.insert(topic);
    auto take = [this, out, topic](const std::string& t, const AnyMsg& m, bool from_node)
    {
      if (t == topic && from_node && m.type == M::dataType())
        out->push_back(std::make_pair(time(), *boost::static_pointer_cast<M const>(m.ptr)));
    };
    taps.push_back(take);
    return out;
  }
  std::multiset<std::string> external_subs, external_pubs;
  // Service call by the harness, executed by the node in its callback queue. Returns false if absent or refused.
  template <class Req, class Res>
  bool call(const std::string& name, const Req& req, Res& res, bool& executed, double max_wait = 0)
  {
    executed = false;
    if (!services.count(name))
      return false;
    bool ok = false;
    queue.push_back([this, name, &req, &res, &ok, &executed]()
                    {
                      if (!services.count(name))
                        return;
                      executed = true;
                      try
                      {
                        ok = services[name].fn(&req, &res);
                      }
                      catch (const std::exception&)
                      {
                        ok = false;  // roscpp reports such a call as failed
                      }
                    });
    settle();
    for (const int64_t until = now + static_cast<int64_t>(max_wait * 1e9); !executed && now < until && alive();)
      advance(0.001);
    if (!executed)
    {
      // still queued: never leave dangling references behind
      queue.clear();
    }
    return ok;
  }
  // Services offered by the harness to the node.
  template <class Req, class Res>
  void offer(const std::string& name, std::function<bool(const Req&, Res&)> f)
  {
    services[name].fn = [f](const void* a, void* b) { return f(*static_cast<const Req*>(a), *static_cast<Res*>(b)); };
  }
  // ----- transforms (one graph-wide store)
  std::map<std::string, TfEdge> tf;
  int64_t tf_cache = 10000000000LL;
  bool tf_blackout = false;  // every lookup fails while set
  void setTf(const std::string& parent, const std::string& child, int64_t t, const double p[3], const double q[4], bool is_static);
  // ----- the node
  void start(std::function<int()> entry);
  void settle();                 // run the node until it waits for something in the future
  void advance(double dt);       // move time forward, firing timers and wake-ups in order
  void advanceNs(int64_t dt);
  void stop();                   // ros::shutdown and let main return
  bool alive() const;
  // called from inside the node
  bool inNode() const { return in_node_; }
  void waitUntil(int64_t t);     // sleep (callbacks are not run)
  void spin();
  void spinOnce();
  uint64_t steps_ = 0;

private:
  struct Fiber;
  std::unique_ptr<Fiber> fiber_;
  bool in_node_ = false;
  enum Wait { NONE, SLEEP, SPIN } wait_ = NONE;
  int64_t wake_ = 0;
  bool dying_ = false;
  friend struct Fiber;
  void resume();
  void yieldToHarness();
  void fireDue();
  void runQueue();
};
World& world();
void resetWorld();
std::string resolve(const std::string& ns, const std::string& name);
}  // namespace sim
#endif
