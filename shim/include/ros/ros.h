#ifndef SHIM_ROS_ROS_H
#define SHIM_ROS_ROS_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <boost/bind.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/scoped_ptr.hpp>
#include <boost/shared_array.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/weak_ptr.hpp>
#include <ros/console.h>
#include <ros/serialization.h>
#include <ros/time.h>
#include <sim/world.h>
#include <std_msgs/Header.h>
#include <xmlrpcpp/XmlRpcValue.h>

namespace ros
{
typedef boost::shared_ptr<void> VoidPtr;
typedef boost::shared_ptr<void const> VoidConstPtr;
typedef boost::weak_ptr<void const> VoidConstWPtr;
typedef std::map<std::string, std::string> M_string;
typedef std::vector<std::string> V_string;
class Exception : public std::runtime_error
{
public:
  explicit Exception(const std::string& w) : std::runtime_error(w) {}
};
struct InvalidNameException : public Exception { using Exception::Exception; };
struct InvalidParameterException : public Exception { using Exception::Exception; };

namespace init_options
{
enum InitOption { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 };
}
void init(int& argc, char** argv, const std::string& name, uint32_t options = 0);
inline bool isInitialized() { return true; }
bool ok();
void shutdown();
inline void requestShutdown() { shutdown(); }
inline bool isShuttingDown() { return !ok(); }
void spin();
void spinOnce();
void waitForShutdown();
inline void start() {}
namespace this_node
{
const std::string& getName();
const std::string& getNamespace();
}  // namespace this_node
namespace names
{
inline std::string resolve(const std::string& n, bool = true) { return sim::resolve("/", n); }
std::string append(const std::string& l, const std::string& r);
}  // namespace names

class TransportHints
{
public:
  TransportHints& reliable() { return *this; }
  TransportHints& unreliable() { return *this; }
  TransportHints& tcp() { return *this; }
  TransportHints& udp() { return *this; }
  TransportHints& tcpNoDelay(bool = true) { return *this; }
};

template <class M>
class MessageEvent
{
};

class Publisher
{
public:
  Publisher() {}
  template <class M>
  void publish(const boost::shared_ptr<M>& m) const
  {
    send(sim::makeAny<typename std::remove_const<M>::type>(boost::make_shared<typename std::remove_const<M>::type const>(*m)));
  }
  template <class M>
  void publish(const M& m) const
  {
    sendTyped(m, 0);
  }
  uint32_t getNumSubscribers() const { return impl_ ? sim::world().subscriberCount(impl_->topic) : 0; }
  std::string getTopic() const { return impl_ ? impl_->topic : std::string(); }
  bool isLatched() const { return impl_ && impl_->latch; }
  void shutdown()
  {
    if (impl_)
      impl_->alive = false;
    impl_.reset();
  }
  operator void*() const { return impl_ && impl_->alive ? reinterpret_cast<void*>(1) : nullptr; }
  bool operator==(const Publisher& o) const { return impl_ == o.impl_; }
  bool operator!=(const Publisher& o) const { return impl_ != o.impl_; }
  bool operator<(const Publisher& o) const { return impl_ < o.impl_; }
  void send(const sim::AnyMsg& m) const;
  std::shared_ptr<sim::Pub> impl_;
  struct Holder
  {
    std::shared_ptr<sim::Pub> p;
    ~Holder() { p->alive = false; }
  };
  std::shared_ptr<Holder> holder_;

private:
  template <class M>
  auto sendTyped(const M& m, int) const -> decltype(m.shim_any(), void())
  {
    send(m.shim_any());
  }
  template <class M>
  void sendTyped(const M& m, ...) const
  {
    send(sim::makeAny<M>(boost::make_shared<M const>(m)));
  }
};

class Subscriber
{
public:
  Subscriber() {}
  void shutdown() { holder_.reset(); }
  std::string getTopic() const { return holder_ ? holder_->s->topic : std::string(); }
  uint32_t getNumPublishers() const { return holder_ ? sim::world().publisherCount(holder_->s->topic) : 0; }
  operator void*() const { return holder_ ? reinterpret_cast<void*>(1) : nullptr; }
  bool operator==(const Subscriber& o) const { return holder_ == o.holder_; }
  bool operator!=(const Subscriber& o) const { return holder_ != o.holder_; }
  struct Holder
  {
    std::shared_ptr<sim::Sub> s;
    ~Holder() { s->alive = false; }
  };
  std::shared_ptr<Holder> holder_;
};

struct TimerEvent
{
  Time last_expected, last_real, current_expected, current_real;
  struct
  {
    WallDuration last_duration;
  } profile;
};
typedef TimerEvent WallTimerEvent;
typedef boost::function<void(const TimerEvent&)> TimerCallback;
class Timer
{
public:
  Timer() {}
  void start();
  void stop();
  void setPeriod(const Duration& d, bool reset = true);
  bool hasPending() { return impl_ && impl_->started && impl_->queued; }
  bool hasStarted() const { return impl_ && impl_->started; }
  bool isValid() { return static_cast<bool>(impl_); }
  operator void*() const { return impl_ ? reinterpret_cast<void*>(1) : nullptr; }
  std::shared_ptr<sim::TimerImpl> impl_;
  struct Holder
  {
    std::shared_ptr<sim::TimerImpl> t;
    ~Holder() { t->alive = false; }
  };
  std::shared_ptr<Holder> holder_;
};
typedef Timer WallTimer;
typedef Timer SteadyTimer;

class ServiceServer
{
public:
  void shutdown() { h_.reset(); }
  std::string getService() const { return h_ ? h_->name : std::string(); }
  operator void*() const { return h_ ? reinterpret_cast<void*>(1) : nullptr; }
  struct Holder
  {
    std::string name;
    ~Holder();
  };
  std::shared_ptr<Holder> h_;
};
class ServiceClient
{
public:
  template <class Req, class Res>
  bool call(const Req& req, Res& res)
  {
    auto it = sim::world().services.find(name_);
    if (it == sim::world().services.end())
      return false;
    auto fn = it->second.fn;
    return fn(&req, &res);
  }
  template <class S>
  bool call(S& srv)
  {
    return call(srv.request, srv.response);
  }
  bool exists() { return sim::world().services.count(name_) > 0; }
  bool isValid() const { return true; }
  bool waitForExistence(Duration timeout = Duration(-1));
  std::string getService() { return name_; }
  std::string name_;
};

template <class T>
struct CbArg
{
  // parameter type of a callback -> message type
  typedef typename std::remove_const<typename std::remove_reference<T>::type>::type Bare;
  template <class U>
  struct Unwrap
  {
    typedef U type;
    static const U& get(const boost::shared_ptr<U const>& p) { return *p; }
  };
  template <class U>
  struct Unwrap<boost::shared_ptr<U>>
  {
    typedef typename std::remove_const<U>::type type;
    static boost::shared_ptr<U> get(const boost::shared_ptr<type const>& p)
    {
      return boost::shared_ptr<U>(boost::make_shared<type>(*p));
    }
  };
  template <class U>
  struct Unwrap<boost::shared_ptr<U const>>
  {
    typedef U type;
    static boost::shared_ptr<U const> get(const boost::shared_ptr<U const>& p) { return p; }
  };
  typedef Unwrap<Bare> Un;
  typedef typename Un::type Msg;
};

class NodeHandle
{
public:
  NodeHandle(const std::string& ns = std::string(), const M_string& remappings = M_string());
  NodeHandle(const NodeHandle& parent, const std::string& ns);
  NodeHandle(const NodeHandle&) = default;
  NodeHandle& operator=(const NodeHandle&) = default;
  const std::string& getNamespace() const { return ns_; }
  const std::string& getUnresolvedNamespace() const { return unresolved_; }
  std::string resolveName(const std::string& name, bool remap = true) const;
  bool ok() const { return ros::ok(); }
  void shutdown() {}

  template <class M>
  Publisher advertise(const std::string& topic, uint32_t queue_size, bool latch = false)
  {
    return advertiseType(topic, M::dataType(), latch);
  }
  Publisher advertiseType(const std::string& topic, const std::string& type, bool latch);

  template <class T, class A>
  Subscriber subscribe(const std::string& topic, uint32_t q, void (T::*fp)(A), T* obj, const TransportHints& = TransportHints())
  {
    return sub<A>(topic, q, 0, VoidConstPtr(), [obj, fp](A a) { (obj->*fp)(a); });
  }
  template <class M, class T>
  Subscriber subscribe(const std::string& topic, uint32_t q, void (T::*fp)(const boost::shared_ptr<M const>&), T* obj, const TransportHints& = TransportHints())
  {
    return sub<const boost::shared_ptr<M const>&>(topic, q, 0, VoidConstPtr(), [obj, fp](const boost::shared_ptr<M const>& a) { (obj->*fp)(a); });
  }
  template <class T, class A>
  Subscriber subscribe(const std::string& topic, uint32_t q, void (T::*fp)(A) const, T* obj, const TransportHints& = TransportHints())
  {
    return sub<A>(topic, q, 0, VoidConstPtr(), [obj, fp](A a) { (obj->*fp)(a); });
  }
  template <class T, class A>
  Subscriber subscribe(const std::string& topic, uint32_t q, void (T::*fp)(A), const boost::shared_ptr<T>& obj, const TransportHints& = TransportHints())
  {
    T* raw = obj.get();
    return sub<A>(topic, q, 0, obj, [raw, fp](A a) { (raw->*fp)(a); });
  }
  template <class A>
  Subscriber subscribe(const std::string& topic, uint32_t q, void (*fp)(A), const TransportHints& = TransportHints())
  {
    return sub<A>(topic, q, 0, VoidConstPtr(), [fp](A a) { fp(a); });
  }
  template <class M>
  Subscriber subscribe(const std::string& topic, uint32_t q, const boost::function<void(const boost::shared_ptr<M const>&)>& cb,
                       const VoidConstPtr& tracked = VoidConstPtr(), const TransportHints& = TransportHints())
  {
    return sub<const boost::shared_ptr<M const>&>(topic, q, 0, tracked, cb);
  }
  template <class M, class C>
  Subscriber subscribe(const std::string& topic, uint32_t q, const boost::function<void(C)>& cb,
                       const VoidConstPtr& tracked = VoidConstPtr(), const TransportHints& = TransportHints())
  {
    return sub<C>(topic, q, 0, tracked, cb);
  }

  template <class T, class Req, class Res>
  ServiceServer advertiseService(const std::string& name, bool (T::*f)(Req&, Res&), T* obj)
  {
    return addService(name, [obj, f](const void* a, void* b)
                      {
                        Req req = *static_cast<const Req*>(a);
                        return (obj->*f)(req, *static_cast<Res*>(b));
                      });
  }
  template <class Req, class Res>
  ServiceServer advertiseService(const std::string& name, bool (*f)(Req&, Res&))
  {
    return addService(name, [f](const void* a, void* b)
                      {
                        Req req = *static_cast<const Req*>(a);
                        return f(req, *static_cast<Res*>(b));
                      });
  }
  template <class Req, class Res>
  ServiceServer advertiseService(const std::string& name, const boost::function<bool(Req&, Res&)>& f, const VoidConstPtr& = VoidConstPtr())
  {
    return addService(name, [f](const void* a, void* b)
                      {
                        Req req = *static_cast<const Req*>(a);
                        return f(req, *static_cast<Res*>(b));
                      });
  }
  ServiceServer addService(const std::string& name, std::function<bool(const void*, void*)> f);
  template <class S>
  ServiceClient serviceClient(const std::string& name, bool = false)
  {
    ServiceClient c;
    c.name_ = resolveName(name);
    return c;
  }
  template <class Req, class Res>
  ServiceClient serviceClient(const std::string& name, bool = false)
  {
    ServiceClient c;
    c.name_ = resolveName(name);
    return c;
  }

  template <class T>
  Timer createTimer(Duration period, void (T::*f)(const TimerEvent&), T* obj, bool oneshot = false, bool autostart = true)
  {
    return createTimer(period, TimerCallback([obj, f](const TimerEvent& e) { (obj->*f)(e); }), oneshot, autostart);
  }
  template <class T>
  Timer createTimer(Duration period, void (T::*f)(const TimerEvent&) const, T* obj, bool oneshot = false, bool autostart = true)
  {
    return createTimer(period, TimerCallback([obj, f](const TimerEvent& e) { (obj->*f)(e); }), oneshot, autostart);
  }
  template <class T>
  Timer createTimer(Rate r, void (T::*f)(const TimerEvent&), T* obj, bool oneshot = false, bool autostart = true)
  {
    return createTimer(r.expectedCycleTime(), f, obj, oneshot, autostart);
  }
  Timer createTimer(Duration period, const TimerCallback& cb, bool oneshot = false, bool autostart = true);
  template <class... A>
  Timer createWallTimer(A&&... a)
  {
    return createTimer(std::forward<A>(a)...);
  }
  template <class... A>
  Timer createSteadyTimer(A&&... a)
  {
    return createTimer(std::forward<A>(a)...);
  }

  // parameters
  bool hasParam(const std::string& key) const;
  bool deleteParam(const std::string& key) const;
  bool searchParam(const std::string& key, std::string& result) const;
  bool getParam(const std::string& key, std::string& v) const;
  bool getParam(const std::string& key, double& v) const;
  bool getParam(const std::string& key, float& v) const;
  bool getParam(const std::string& key, int& v) const;
  bool getParam(const std::string& key, bool& v) const;
  bool getParam(const std::string& key, XmlRpc::XmlRpcValue& v) const;
  bool getParam(const std::string& key, std::vector<std::string>& v) const;
  bool getParam(const std::string& key, std::vector<double>& v) const;
  bool getParam(const std::string& key, std::vector<float>& v) const;
  bool getParam(const std::string& key, std::vector<int>& v) const;
  bool getParam(const std::string& key, std::map<std::string, std::string>& v) const;
  bool getParam(const std::string& key, std::map<std::string, double>& v) const;
  template <class T>
  bool getParamCached(const std::string& key, T& v) const
  {
    return getParam(key, v);
  }
  template <class T>
  bool param(const std::string& key, T& v, const T& def) const
  {
    if (hasParam(key) && getParam(key, v))
      return true;
    v = def;
    return false;
  }
  template <class T>
  T param(const std::string& key, const T& def) const
  {
    T v;
    param(key, v, def);
    return v;
  }
  void setParam(const std::string& key, const XmlRpc::XmlRpcValue& v) const;
  void setParam(const std::string& key, const std::string& v) const { setParam(key, XmlRpc::XmlRpcValue(v)); }
  void setParam(const std::string& key, const char* v) const { setParam(key, XmlRpc::XmlRpcValue(v)); }
  void setParam(const std::string& key, double v) const { setParam(key, XmlRpc::XmlRpcValue(v)); }
  void setParam(const std::string& key, int v) const { setParam(key, XmlRpc::XmlRpcValue(v)); }
  void setParam(const std::string& key, bool v) const { setParam(key, XmlRpc::XmlRpcValue(v)); }

private:
  template <class A, class Unused, class F>
  Subscriber sub(const std::string& topic, uint32_t q, Unused, const VoidConstPtr& tracked, F f)
  {
    typedef typename CbArg<A>::Msg Msg;
    auto s = std::make_shared<sim::Sub>();
    s->topic = resolveName(topic);
    s->type = Msg::dataType();
    s->qsize = q;
    if (tracked)
    {
      s->tracked = tracked;
      s->has_tracked = true;
    }
    s->cb = [f](const sim::AnyMsg& m, const std::string&)
    {
      boost::shared_ptr<Msg const> p = Conv<Msg>::get(m);
      typename std::conditional<std::is_same<typename CbArg<A>::Bare, Msg>::value, const Msg&, typename CbArg<A>::Bare>::type v =
          CbArg<A>::Un::get(p);
      f(v);
    };
    Subscriber r;
    r.holder_ = std::make_shared<Subscriber::Holder>();
    r.holder_->s = s;
    sim::world().addSub(s);
    return r;
  }
  template <class M, class = void>
  struct Conv
  {
    static boost::shared_ptr<M const> get(const sim::AnyMsg& m) { return boost::static_pointer_cast<M const>(m.ptr); }
  };
  template <class M>
  struct Conv<M, decltype(M::shim_from(std::declval<const sim::AnyMsg&>()), void())>
  {
    static boost::shared_ptr<M const> get(const sim::AnyMsg& m) { return M::shim_from(m); }
  };
  std::string ns_, unresolved_;
};

class AsyncSpinner
{
public:
  explicit AsyncSpinner(uint32_t) {}
  void start() {}
  void stop() {}
};
class CallbackQueue
{
};
namespace param
{
template <class T>
bool get(const std::string& key, T& v)
{
  return NodeHandle("/").getParam(key, v);
}
template <class T>
void set(const std::string& key, const T& v)
{
  NodeHandle("/").setParam(key, v);
}
}  // namespace param
}  // namespace ros
#endif
