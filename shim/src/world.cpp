#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <ros/ros.h>
#include <sim/world.h>
#include <tf2_ros/transform_broadcaster.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#define SHIM_ASAN 1
#endif
namespace __cxxabiv1
{
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept;
}

namespace sim
{
// ------------------------------------------------------------------ fiber
struct World::Fiber
{
  static constexpr size_t kStack = 32 * 1024 * 1024;
  ucontext_t node_ctx, main_ctx;
  char* stack;
  std::function<int()> entry;
  World* w;
  bool done = false;
  char eh_node[16] = {0}, eh_main[16] = {0};
#ifdef SHIM_ASAN
  void* fake_node = nullptr;
  void* fake_main = nullptr;
  const void* main_bottom = nullptr;
  size_t main_size = 0;
#endif
  explicit Fiber(World* world) : w(world)
  {
    stack = static_cast<char*>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0));
    if (stack == MAP_FAILED)
      abort();
    mprotect(stack, 4096, PROT_NONE);
    getcontext(&node_ctx);
    node_ctx.uc_stack.ss_sp = stack;
    node_ctx.uc_stack.ss_size = kStack;
    node_ctx.uc_link = nullptr;
    const uintptr_t p = reinterpret_cast<uintptr_t>(this);
    makecontext(&node_ctx, reinterpret_cast<void (*)()>(&Fiber::trampoline), 2, static_cast<unsigned>(p >> 32), static_cast<unsigned>(p));
  }
  ~Fiber()
  {
#ifdef SHIM_ASAN
    __asan_unpoison_memory_region(stack + 4096, kStack - 4096);
#endif
    munmap(stack, kStack);
  }
  static void trampoline(unsigned hi, unsigned lo)
  {
    Fiber* f = reinterpret_cast<Fiber*>((static_cast<uintptr_t>(hi) << 32) | lo);
    f->run();
  }
  void run()
  {
#ifdef SHIM_ASAN
    __sanitizer_finish_switch_fiber(fake_node, &main_bottom, &main_size);
#endif
    try
    {
      w->exit_code = entry();
      w->finished = true;
    }
    catch (NodeKilled&)
    {
      w->finished = true;
    }
    catch (std::exception& e)
    {
      w->crashed = true;
      int st = 0;
      char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
      w->crash_what = std::string(n ? n : "?") + ": " + e.what();
      free(n);
    }
    catch (XmlRpc::XmlRpcException& e)
    {
      w->crashed = true;
      w->crash_what = "XmlRpcException: " + e.getMessage();
    }
    catch (...)
    {
      w->crashed = true;
      w->crash_what = "unknown exception";
    }
    done = true;
    toMain(true);
  }
  void toNode()
  {
    memcpy(eh_main, __cxxabiv1::__cxa_get_globals(), 16);
    memcpy(__cxxabiv1::__cxa_get_globals(), eh_node, 16);
#ifdef SHIM_ASAN
    __sanitizer_start_switch_fiber(&fake_main, stack, kStack);
#endif
    swapcontext(&main_ctx, &node_ctx);
#ifdef SHIM_ASAN
    __sanitizer_finish_switch_fiber(fake_main, nullptr, nullptr);
#endif
    memcpy(eh_node, __cxxabiv1::__cxa_get_globals(), 16);
    memcpy(__cxxabiv1::__cxa_get_globals(), eh_main, 16);
  }
  void toMain(bool last)
  {
#ifdef SHIM_ASAN
    __sanitizer_start_switch_fiber(last ? nullptr : &fake_node, main_bottom, main_size);
#endif
    swapcontext(&node_ctx, &main_ctx);
#ifdef SHIM_ASAN
    __sanitizer_finish_switch_fiber(fake_node, &main_bottom, &main_size);
#endif
  }
};

// ------------------------------------------------------------------ world
static World* g_world = nullptr;
World& world()
{
  if (!g_world)
    g_world = new World();
  return *g_world;
}
void resetWorld()
{
  delete g_world;
  g_world = nullptr;
  g_world = new World();
  sentTf().clear();
}
World::World() {}
World::~World()
{
  stop();
}
std::string resolve(const std::string& ns, const std::string& name)
{
  std::string n;
  if (name.empty())
    n = ns;
  else if (name[0] == '/')
    n = name;
  else if (name[0] == '~')
    n = "/" + world().node + "/" + name.substr(1);
  else
    n = ns + "/" + name;
  std::string out;
  for (char c : n)
  {
    if (c == '/' && !out.empty() && out.back() == '/')
      continue;
    out += c;
  }
  if (out.size() > 1 && out.back() == '/')
    out.pop_back();
  auto it = world().remap.find(out);
  return it == world().remap.end() ? out : it->second;
}

static std::vector<std::string> split(const std::string& s)
{
  std::vector<std::string> r;
  std::string cur;
  for (char c : s)
  {
    if (c == '/')
    {
      if (!cur.empty())
        r.push_back(cur);
      cur.clear();
    }
    else
      cur += c;
  }
  if (!cur.empty())
    r.push_back(cur);
  return r;
}
XmlRpc::XmlRpcValue* World::findParam(const std::string& abs)
{
  XmlRpc::XmlRpcValue* v = &params;
  for (const std::string& k : split(abs))
  {
    if (!v->hasMember(k))
      return nullptr;
    v = &(*v)[k];
  }
  return v->valid() ? v : nullptr;
}
void World::setParam(const std::string& abs, const XmlRpc::XmlRpcValue& val)
{
  XmlRpc::XmlRpcValue* v = &params;
  for (const std::string& k : split(abs))
  {
    if (v->getType() != XmlRpc::XmlRpcValue::TypeStruct)
      v->clear();
    v = &(*v)[k];
  }
  *v = val;
}
bool World::eraseParam(const std::string& abs)
{
  auto parts = split(abs);
  if (parts.empty())
    return false;
  XmlRpc::XmlRpcValue* v = &params;
  for (size_t i = 0; i + 1 < parts.size(); ++i)
  {
    if (!v->hasMember(parts[i]))
      return false;
    v = &(*v)[parts[i]];
  }
  if (!v->hasMember(parts.back()))
    return false;
  v->eraseMember(parts.back());
  return true;
}

void World::addSub(const std::shared_ptr<Sub>& s)
{
  subs.erase(std::remove_if(subs.begin(), subs.end(), [](const std::shared_ptr<Sub>& x) { return !x->alive; }), subs.end());
  subs.push_back(s);
  std::vector<std::shared_ptr<Pub>> ps = pubs;
  for (auto& p : ps)
  {
    if (p->topic == s->topic && p->latch && p->has_latched && p->alive && (s->type == "*" || s->type == p->latched.type))
    {
      s->pending.emplace_back(p->latched, p->node);
      std::shared_ptr<Sub> keep = s;
      queue.push_back([this, keep]() { invoke_one(keep); });
    }
  }
}
void World::addPub(const std::shared_ptr<Pub>& p)
{
  pubs.push_back(p);
}
bool World::invoke_one(const std::shared_ptr<Sub>& s)
{
  if (!s->alive || s->pending.empty())
    return false;
  auto m = s->pending.front();
  s->pending.pop_front();
  boost::shared_ptr<void const> keep;
  if (s->has_tracked)
  {
    keep = s->tracked.lock();
    if (!keep)
      return false;
  }
  s->cb(m.first, m.second);
  return true;
}
void World::deliver(const std::string& topic, const AnyMsg& m, const std::string& from, bool from_node)
{
  ++seq;
  for (size_t i = 0; i < taps.size(); ++i)
    taps[i](topic, m, from_node);
  std::vector<std::shared_ptr<Sub>> ss = subs;
  for (auto& s : ss)
  {
    if (!s->alive || s->topic != topic || (s->type != "*" && s->type != m.type))
      continue;
    s->pending.emplace_back(m, from);
    if (s->qsize > 0 && s->pending.size() > s->qsize)
      s->pending.pop_front();
    std::shared_ptr<Sub> keep = s;
    queue.push_back([this, keep]() { invoke_one(keep); });
  }
}
size_t World::subscriberCount(const std::string& topic) const
{
  size_t n = external_subs.count(topic);
  for (auto& s : subs)
    n += s->alive && s->topic == topic;
  return n;
}
size_t World::publisherCount(const std::string& topic) const
{
  size_t n = external_pubs.count(topic);
  for (auto& s : pubs)
    n += s->alive && s->topic == topic;
  return n;
}
void World::publishAny(const std::string& topic, const AnyMsg& m, bool latch)
{
  if (latch)
  {
    std::shared_ptr<Pub> p;
    for (auto& q : pubs)
      if (q->node == "harness" && q->topic == topic)
        p = q;
    if (!p)
    {
      p = std::make_shared<Pub>();
      p->topic = topic;
      p->type = m.type;
      p->node = "harness";
      p->latch = true;
      pubs.push_back(p);
    }
    p->latched = m;
    p->has_latched = true;
  }
  deliver(topic, m, "harness", false);
}

void World::setTf(const std::string& parent, const std::string& child, int64_t t, const double p[3], const double q[4], bool is_static)
{
  TfEdge& e = tf[child];
  if (e.parent != parent)
  {
    e.parent = parent;
  }
  TfSample s;
  s.t = t;
  memcpy(s.p, p, sizeof(s.p));
  memcpy(s.q, q, sizeof(s.q));
  if (is_static)
  {
    e.is_static = true;
    e.data.assign(1, s);
    return;
  }
  e.is_static = false;
  if (!e.data.empty() && e.data.back().t > t + tf_cache)
    return;
  auto it = e.data.end();
  while (it != e.data.begin() && (it - 1)->t > t)
    --it;
  if (it != e.data.begin() && (it - 1)->t == t)
    *(it - 1) = s;
  else
    e.data.insert(it, s);
  while (e.data.front().t + tf_cache < e.data.back().t)
    e.data.pop_front();
}

// ------------------------------------------------------------------ scheduling
bool World::alive() const { return fiber_ && !fiber_->done; }
void World::resume()
{
  if (!alive())
    return;
  if (in_node_)
    abort();
  in_node_ = true;
  fiber_->toNode();
  in_node_ = false;
}
void World::yieldToHarness()
{
  if (!in_node_)
    return;
  fiber_->toMain(false);
  if (dying_)
  {
    // shutting down: let loops see ros::ok() == false a few times, then unwind
    if (++steps_ > 1000)
      throw NodeKilled();
  }
}
void World::start(std::function<int()> entry)
{
  fiber_.reset(new Fiber(this));
  fiber_->entry = entry;
  wait_ = NONE;
  resume();
  settle();
}
void World::settle()
{
  int guard = 0;
  while (alive())
  {
    const bool go = (wait_ == SPIN && !queue.empty()) || (wait_ == SLEEP && wake_ <= now) || wait_ == NONE;
    if (!go)
      break;
    if (++guard > 200000)
    {
      fprintf(stderr, "node does not settle at one instant\n");
      abort();
    }
    resume();
  }
  if (fiber_ && fiber_->done)
    wait_ = NONE;
}
void World::fireDue()
{
  std::vector<std::shared_ptr<TimerImpl>> ts = timers;
  std::stable_sort(ts.begin(), ts.end(), [](const std::shared_ptr<TimerImpl>& a, const std::shared_ptr<TimerImpl>& b) { return a->next < b->next; });
  for (auto& t : ts)
  {
    if (!t->alive || !t->started || t->queued || t->next > now - timer_latency_ns)
      continue;
    t->queued = true;
    const int64_t expected = t->next;
    std::weak_ptr<TimerImpl> weak = t;
    queue.push_back([this, weak, expected]()
                    {
                      std::shared_ptr<TimerImpl> t = weak.lock();
                      if (!t || !t->alive)
                        return;
                      t->queued = false;
                      if (!t->started)
                        return;
                      auto mk = [](int64_t n) { ros::Time x; x.fromNSec(n); return x; };
                      const int64_t le = t->last_expected, lr = t->last_real, real = now;
                      t->last_expected = expected;
                      t->last_real = real;
                      if (!t->oneshot)
                      {
                        t->next = expected + t->period;
                        // roscpp: when more than one period late, skip ahead
                        if (t->next < now)
                          t->next = now;
                      }
                      t->cb(mk(le), mk(lr), mk(expected), mk(real));
                      // roscpp: a oneshot timer waits forever, until setPeriod(.., true)
                      if (t->oneshot)
                        t->next = INT64_MAX;
                    });
  }
  timers.erase(std::remove_if(timers.begin(), timers.end(), [](const std::shared_ptr<TimerImpl>& t) { return !t->alive; }), timers.end());
}
void World::advance(double dt) { advanceNs(llround(dt * 1e9)); }
void World::advanceNs(int64_t dt)
{
  const int64_t target = now + dt;
  settle();
  while (true)
  {
    int64_t next = target;
    for (auto& t : timers)
      if (t->alive && t->started && !t->queued && t->next < next - timer_latency_ns)
        next = std::max(t->next + timer_latency_ns, now);
    if (alive() && wait_ == SLEEP && wake_ < next)
      next = std::max(wake_, now);
    now = next;
    fireDue();
    settle();
    if (now >= target)
    {
      // something may be due exactly now again
      bool more = false;
      for (auto& t : timers)
        more = more || (t->alive && t->started && !t->queued && t->next <= now - timer_latency_ns);
      if (!(more || (alive() && wait_ == SLEEP && wake_ <= now)))
        break;
    }
  }
}
void World::stop()
{
  shutdown = true;
  dying_ = true;
  steps_ = 0;
  int guard = 0;
  while (alive())
  {
    wait_ = NONE;
    resume();
    if (++guard > 5000)
    {
      fprintf(stderr, "node does not shut down\n");
      abort();
    }
  }
  fiber_.reset();
  queue.clear();
  subs.clear();
  pubs.clear();
  timers.clear();
  services.clear();
}
void World::waitUntil(int64_t t)
{
  if (!in_node_)
  {
    if (t > now)
      now = t;
    return;
  }
  wait_ = SLEEP;
  wake_ = t;
  do
  {
    yieldToHarness();
  } while (!shutdown && now < t);
  wait_ = NONE;
}
void World::runQueue()
{
  // only what is queued now (roscpp's callAvailable)
  size_t n = queue.size();
  while (n-- > 0 && !queue.empty() && !shutdown)
  {
    auto f = queue.front();
    queue.pop_front();
    f();
  }
}
void World::spin()
{
  if (!in_node_)
    return;
  while (!shutdown)
  {
    if (queue.empty())
    {
      wait_ = SPIN;
      yieldToHarness();
      wait_ = NONE;
    }
    runQueue();
  }
}
void World::spinOnce()
{
  if (spin_cost_ns > 0)
    waitUntil(now + spin_cost_ns);
  runQueue();
}

void logf(char level, const char* fmt, ...)
{
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  World& w = world();
  if (w.keep_log && w.log.size() < 20000)
    w.log.push_back(std::string(1, level) + " " + buf);
  static const bool echo = getenv("SIM_LOG") != nullptr;
  if (echo)
    fprintf(stderr, "[%.4f] %c %s\n", w.now * 1e-9, level, buf);
}
}  // namespace sim

// -------------------------------------------------------------------- ros
namespace ros
{
const Time TIME_MIN(0, 1), TIME_MAX(std::numeric_limits<uint32_t>::max(), 999999999);
const Duration DURATION_MIN(std::numeric_limits<int32_t>::min(), 0), DURATION_MAX(std::numeric_limits<int32_t>::max(), 999999999);
Time Time::now() { return sim::world().time(); }
bool Time::isSimTime() { return sim::world().sim_time; }
bool Time::sleepUntil(const Time& t)
{
  sim::world().waitUntil(t.toNSec());
  return true;
}
bool Duration::sleep() const
{
  if (toNSec() > 0)
    sim::world().waitUntil(sim::world().now + toNSec());
  return ros::ok();
}
bool Rate::sleep()
{
  Time expected_end = start_ + expected_;
  const Time actual_end = Time::now();
  if (actual_end < start_)
    expected_end = actual_end + expected_;
  const Duration sleep_time = expected_end - actual_end;
  start_ = expected_end;
  if (sleep_time <= Duration(0, 0))
  {
    if (actual_end > expected_end + expected_)
      start_ = actual_end;
    // a loop that never sleeps must still let the others run
    sim::world().waitUntil(sim::world().now);
    return false;
  }
  return sleep_time.sleep();
}
void init(int& argc, char** argv, const std::string& name, uint32_t)
{
  sim::world().node = name;
  (void)argc;
  (void)argv;
}
bool ok() { return !sim::world().shutdown; }
void shutdown() { sim::world().shutdown = true; }
void spin() { sim::world().spin(); }
void spinOnce() { sim::world().spinOnce(); }
void waitForShutdown()
{
  sim::world().spin();
}
namespace this_node
{
const std::string& getName()
{
  static std::string n;
  n = "/" + sim::world().node;
  return n;
}
const std::string& getNamespace()
{
  static const std::string n = "/";
  return n;
}
}  // namespace this_node
namespace names
{
std::string append(const std::string& l, const std::string& r) { return sim::resolve("/", l + "/" + r); }
}  // namespace names

void Publisher::send(const sim::AnyMsg& m) const
{
  if (!impl_ || !impl_->alive)
    return;
  if (impl_->type != "*" && m.type != impl_->type)
  {
    // roscpp asserts on this
    fprintf(stderr, "publishing %s on a %s topic\n", m.type.c_str(), impl_->type.c_str());
    abort();
  }
  if (impl_->latch)
  {
    impl_->latched = m;
    impl_->has_latched = true;
  }
  sim::world().deliver(impl_->topic, m, impl_->node, true);
}
void Timer::start()
{
  if (!impl_ || impl_->started)
    return;
  impl_->started = true;
  impl_->next = sim::world().now + impl_->period;
}
void Timer::stop()
{
  if (impl_)
    impl_->started = false;
}
void Timer::setPeriod(const Duration& d, bool reset)
{
  if (!impl_)
    return;
  const int64_t now = sim::world().now, p = d.toNSec();
  if (reset)
    impl_->next = now + p;
  else if (now - impl_->last_real < impl_->period)
    impl_->next = now - impl_->last_real > p ? now : impl_->last_real + p;
  impl_->period = p;
}
ServiceServer::Holder::~Holder() { sim::world().services.erase(name); }
bool ServiceClient::waitForExistence(Duration timeout)
{
  const int64_t end = timeout < Duration(0) ? std::numeric_limits<int64_t>::max() : sim::world().now + timeout.toNSec();
  while (ros::ok() && !exists() && sim::world().now < end)
    Duration(0.1).sleep();
  return exists();
}

static std::string cleanNs(const std::string& s) { return s; }
NodeHandle::NodeHandle(const std::string& ns, const M_string&)
{
  if (!ns.empty() && ns[0] == '~')
  {
    // roscpp resolves "~" into the node's name here
    unresolved_ = sim::resolve("/", ns);
    ns_ = unresolved_;
  }
  else
  {
    unresolved_ = ns;
    ns_ = sim::resolve("/", ns);
  }
}
NodeHandle::NodeHandle(const NodeHandle& parent, const std::string& ns)
{
  std::string n = ns;
  if (!n.empty() && n[0] == '~')
    n = sim::resolve("/", n);
  unresolved_ = parent.unresolved_.empty() ? n : parent.unresolved_ + "/" + n;
  ns_ = sim::resolve(parent.ns_, n);
}
std::string NodeHandle::resolveName(const std::string& name, bool) const
{
  if (!name.empty() && name[0] == '~')
    throw InvalidNameException("Using ~ names with NodeHandle methods is not allowed.");
  return sim::resolve(ns_, name);
}
Publisher NodeHandle::advertiseType(const std::string& topic, const std::string& type, bool latch)
{
  auto p = std::make_shared<sim::Pub>();
  p->topic = resolveName(topic);
  p->type = type;
  p->latch = latch;
  p->node = this_node::getName();
  sim::world().addPub(p);
  Publisher r;
  r.impl_ = p;
  r.holder_ = std::make_shared<Publisher::Holder>();
  r.holder_->p = p;
  return r;
}
ServiceServer NodeHandle::addService(const std::string& name, std::function<bool(const void*, void*)> f)
{
  ServiceServer s;
  s.h_ = std::make_shared<ServiceServer::Holder>();
  s.h_->name = resolveName(name);
  sim::world().services[s.h_->name].fn = f;
  return s;
}
Timer NodeHandle::createTimer(Duration period, const TimerCallback& cb, bool oneshot, bool autostart)
{
  Timer t;
  t.impl_ = std::make_shared<sim::TimerImpl>();
  t.impl_->period = period.toNSec();
  t.impl_->oneshot = oneshot;
  t.impl_->cb = [cb](const Time& le, const Time& lr, const Time& ce, const Time& cr)
  {
    TimerEvent e;
    e.last_expected = le;
    e.last_real = lr;
    e.current_expected = ce;
    e.current_real = cr;
    cb(e);
  };
  t.holder_ = std::make_shared<Timer::Holder>();
  t.holder_->t = t.impl_;
  sim::world().timers.push_back(t.impl_);
  if (autostart)
    t.start();
  return t;
}

// ---- parameters
bool NodeHandle::hasParam(const std::string& key) const { return sim::world().findParam(resolveName(key)) != nullptr; }
bool NodeHandle::deleteParam(const std::string& key) const { return sim::world().eraseParam(resolveName(key)); }
bool NodeHandle::searchParam(const std::string& key, std::string& result) const
{
  if (!hasParam(key))
    return false;
  result = resolveName(key);
  return true;
}
void NodeHandle::setParam(const std::string& key, const XmlRpc::XmlRpcValue& v) const { sim::world().setParam(resolveName(key), v); }
bool NodeHandle::getParam(const std::string& key, XmlRpc::XmlRpcValue& v) const
{
  auto* p = sim::world().findParam(resolveName(key));
  if (p)
    v = *p;
  return p != nullptr;
}
bool NodeHandle::getParam(const std::string& key, std::string& v) const
{
  auto* p = sim::world().findParam(resolveName(key));
  if (!p || p->getType() != XmlRpc::XmlRpcValue::TypeString)
    return false;
  v = static_cast<const std::string&>(*p);
  return true;
}
static bool num(const XmlRpc::XmlRpcValue& p, double& v)
{
  if (p.getType() == XmlRpc::XmlRpcValue::TypeInt)
    v = static_cast<const int&>(p);
  else if (p.getType() == XmlRpc::XmlRpcValue::TypeDouble)
    v = static_cast<const double&>(p);
  else
    return false;
  return true;
}
bool NodeHandle::getParam(const std::string& key, double& v) const
{
  auto* p = sim::world().findParam(resolveName(key));
  return p && num(*p, v);
}
bool NodeHandle::getParam(const std::string& key, float& v) const
{
  double d;
  if (!getParam(key, d))
    return false;
  v = static_cast<float>(d);
  return true;
}
bool NodeHandle::getParam(const std::string& key, int& v) const
{
  auto* p = sim::world().findParam(resolveName(key));
  if (!p)
    return false;
  if (p->getType() == XmlRpc::XmlRpcValue::TypeDouble)
  {
    double d = static_cast<const double&>(*p);
    if (std::fmod(d, 1.0) < 0.5)
      d = std::floor(d);
    else
      d = std::ceil(d);
    v = static_cast<int>(d);
    return true;
  }
  if (p->getType() != XmlRpc::XmlRpcValue::TypeInt)
    return false;
  v = static_cast<const int&>(*p);
  return true;
}
bool NodeHandle::getParam(const std::string& key, bool& v) const
{
  auto* p = sim::world().findParam(resolveName(key));
  if (!p || p->getType() != XmlRpc::XmlRpcValue::TypeBoolean)
    return false;
  v = static_cast<const bool&>(*p);
  return true;
}
bool NodeHandle::getParam(const std::string& key, std::vector<std::string>& v) const
{
  auto* p = sim::world().findParam(resolveName(key));
  if (!p || p->getType() != XmlRpc::XmlRpcValue::TypeArray)
    return false;
  std::vector<std::string> r;
  for (int i = 0; i < p->size(); ++i)
  {
    if ((*p)[i].getType() != XmlRpc::XmlRpcValue::TypeString)
      return false;
    r.push_back(static_cast<std::string&>((*p)[i]));
  }
  v = r;
  return true;
}
template <class T>
static bool numVec(XmlRpc::XmlRpcValue* p, std::vector<T>& v)
{
  if (!p || p->getType() != XmlRpc::XmlRpcValue::TypeArray)
    return false;
  std::vector<T> r;
  for (int i = 0; i < p->size(); ++i)
  {
    double d;
    if (!num((*p)[i], d))
      return false;
    r.push_back(static_cast<T>(d));
  }
  v = r;
  return true;
}
bool NodeHandle::getParam(const std::string& key, std::vector<double>& v) const { return numVec(sim::world().findParam(resolveName(key)), v); }
bool NodeHandle::getParam(const std::string& key, std::vector<float>& v) const { return numVec(sim::world().findParam(resolveName(key)), v); }
bool NodeHandle::getParam(const std::string& key, std::vector<int>& v) const { return numVec(sim::world().findParam(resolveName(key)), v); }
bool NodeHandle::getParam(const std::string& key, std::map<std::string, std::string>& v) const
{
  auto* p = sim::world().findParam(resolveName(key));
  if (!p || p->getType() != XmlRpc::XmlRpcValue::TypeStruct)
    return false;
  std::map<std::string, std::string> r;
  for (auto& e : *p)
  {
    if (e.second.getType() != XmlRpc::XmlRpcValue::TypeString)
      return false;
    r[e.first] = static_cast<std::string&>(e.second);
  }
  v = r;
  return true;
}
bool NodeHandle::getParam(const std::string& key, std::map<std::string, double>& v) const
{
  auto* p = sim::world().findParam(resolveName(key));
  if (!p || p->getType() != XmlRpc::XmlRpcValue::TypeStruct)
    return false;
  std::map<std::string, double> r;
  for (auto& e : *p)
  {
    double d;
    if (!num(e.second, d))
      return false;
    r[e.first] = d;
  }
  v = r;
  return true;
}
}  // namespace ros
