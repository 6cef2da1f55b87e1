// J01, J02: joystick_interrupt and joystick_mux, run as real nodes on the simulated graph.
#include <pbt.h>
#include <cstring>
#include <geometry_msgs/Twist.h>
#include <sensor_msgs/Joy.h>
#include <std_msgs/Bool.h>
#include <std_msgs/String.h>
#include <sim/world.h>

int joystick_interrupt_main(int argc, char* argv[]);
int joystick_mux_main(int argc, char* argv[]);
namespace
{
using pbt::Ctx;
using pbt::Src;
geometry_msgs::Twist randTwist(Src& s)
{
  geometry_msgs::Twist t;
  if (s.chance(1, 5))
    return t;
  t.linear.x = s.sym(2.0);
  t.angular.z = s.sym(2.0);
  if (s.chance(1, 3))
  {
    t.linear.y = s.sym(1.0);
    t.linear.z = s.sym(1.0);
    t.angular.x = s.sym(1.0);
    t.angular.y = s.sym(1.0);
  }
  return t;
}
bool same(const geometry_msgs::Twist& a, const geometry_msgs::Twist& b)
{
  return a.linear.x == b.linear.x && a.linear.y == b.linear.y && a.linear.z == b.linear.z &&
         a.angular.x == b.angular.x && a.angular.y == b.angular.y && a.angular.z == b.angular.z;
}
std::string str(const geometry_msgs::Twist& a)
{
  std::ostringstream o;
  o << "(" << a.linear.x << " " << a.linear.y << " " << a.linear.z << " / " << a.angular.x << " " << a.angular.y << " " << a.angular.z << ")";
  return o.str();
}
// How far time moves between events: shorter than, about, and longer than the timeout.
double gap(Src& s, double timeout)
{
  switch (s.draw(3))
  {
    case 0:
      return 0.0;
    case 1:
      return s.range(1, 100) * timeout / 150.0;
    case 2:
      return timeout * (0.9 + 0.0021 * s.range(0, 100));
    default:
      return timeout + s.range(1, 20) * 0.05;
  }
}

PBT_FACET(interrupt, 1, "the joystick drove, a command was blocked and a command passed")
{
  auto& s = c.src;
  sim::resetWorld();
  auto& w = sim::world();
  w.sim_time = s.flip();
  if (w.sim_time && s.flip())
    w.now = static_cast<int64_t>(s.range(1, 1000)) * 1000000;
  const bool compat = s.flip();
  w.setParam("/neonavigation_compatible", compat ? 0 : 1);
  const std::string t_in = compat ? "/joystick_interrupt/cmd_vel_input" : "/cmd_vel_input", t_out = compat ? "/joystick_interrupt/cmd_vel" : "/cmd_vel";
  double lv = 0.5, av = 0.8, lyv = 0, lr = 1.3, ar = 1.1, timeout = 0.5;
  int la = 1, aa = 0, la2 = -1, aa2 = -1, ya = -1, ya2 = -1, ib = 6, hb = -1;
  auto P = [&](const char* k, double& v, double x)
  {
    if (s.chance(1, 2))
      w.setParam(std::string("/joystick_interrupt/") + k, v = x);
  };
  auto I = [&](const char* k, int& v, int lo, int hi)
  {
    if (s.chance(1, 2))
      w.setParam(std::string("/joystick_interrupt/") + k, v = s.irange(lo, hi));
  };
  P("linear_vel", lv, s.sym(2.0));
  P("angular_vel", av, s.sym(2.0));
  P("linear_y_vel", lyv, s.sym(2.0));
  P("linear_high_speed_ratio", lr, s.real(0.5, 3.0));
  P("angular_high_speed_ratio", ar, s.real(0.5, 3.0));
  P("timeout", timeout, 0.05 * s.range(1, 20));
  I("linear_axis", la, 0, 6);
  I("angular_axis", aa, 0, 6);
  I("linear_axis2", la2, -1, 6);
  I("angular_axis2", aa2, -1, 6);
  I("linear_y_axis", ya, -1, 6);
  I("linear_y_axis2", ya2, -1, 6);
  I("interrupt_button", ib, 0, 6);
  I("high_speed_button", hb, -1, 6);
  auto out = w.listen<geometry_msgs::Twist>(t_out);
  auto stat = w.listen<std_msgs::Bool>("/joystick_interrupt/interrupt_status");
  w.start([]
          { char n[] = "n"; char* a[] = {n, nullptr}; return joystick_interrupt_main(1, a); });
  w.settle();
  PBT_CHECK(!w.crashed, "crash", w.crash_what);

  bool held = false;
  int64_t held_at = 0;
  geometry_msgs::Twist last;
  const int64_t tns = std::llround(timeout * 1e9);
  int blocked = 0, passed = 0, driven = 0, released = 0, expired = 0;
  const int n = s.range(2, 25);
  for (int i = 0; i < n; ++i)
  {
    w.advance(gap(s, timeout));
    PBT_CHECK(out->empty() && stat->empty(), "spontaneous", "output without any input at step " << i);
    const int64_t el = w.now - held_at;
    // 1: joystick in control, 0: other source in control, -1: either (exactly at the limit)
    const int ctl = !held ? 0 : std::llabs(el - tns) <= 1000 ? -1 : el < tns ? 1 : 0;
    if (s.flip())
    {
      last = randTwist(s);
      w.publish(t_in, last);
      w.settle();
      PBT_CHECK(stat->size() == 1, "status", "step " << i << ": " << stat->size() << " status messages for one command");
      PBT_CHECK(ctl < 0 || stat->at(0).second.data == (ctl == 0), "status", "step " << i << ": status " << int(stat->at(0).second.data) << " although joystick control is " << ctl);
      const bool pass = stat->at(0).second.data;
      PBT_CHECK(out->size() == (pass ? 1u : 0u), "forward", "step " << i << ": " << out->size() << " outputs for a command while joystick control is " << ctl);
      if (pass)
      {
        PBT_CHECK(same(out->at(0).second, last), "forward", "step " << i << ": command " << str(last) << " came out as " << str(out->at(0).second));
        ++passed;
        expired += held;
      }
      else
        ++blocked;
    }
    else
    {
      sensor_msgs::Joy j;
      j.axes.resize(s.chance(1, 4) ? s.range(0, 7) : 7);
      j.buttons.resize(s.chance(1, 5) ? s.range(0, 7) : 7);
      for (auto& a : j.axes)
        a = s.chance(1, 4) ? 0.f : static_cast<float>(s.sym(1.0));
      for (auto& b : j.buttons)
        b = s.flip();
      const bool in_range = static_cast<size_t>(ib) < j.buttons.size();
      if (in_range && s.chance(2, 3))
        j.buttons[ib] = s.chance(3, 4);
      const bool press = in_range && j.buttons[ib];
      w.publish("/joy", j);
      w.settle();
      if (press)
      {
        auto get = [&](int a)
        { return a >= 0 && static_cast<size_t>(a) < j.axes.size() ? static_cast<double>(j.axes[a]) : 0.0; };
        auto two = [&](int a, int b)
        { return std::abs(get(b)) > std::abs(get(a)) ? get(b) : get(a); };
        const bool hi = hb >= 0 && static_cast<size_t>(hb) < j.buttons.size() && j.buttons[hb];
        const double ex = two(la, la2) * lv * (hi ? lr : 1), ey = two(ya, ya2) * lyv * (hi ? lr : 1), ez = two(aa, aa2) * av * (hi ? ar : 1);
        PBT_CHECK(out->size() == 1, "drive", "step " << i << ": " << out->size() << " outputs while the button is held");
        const auto& o = out->at(0).second;
        auto eq = [](double a, double b)
        { return std::abs(a - b) <= 1e-5 * (1 + std::abs(b)); };
        PBT_CHECK(eq(o.linear.x, ex) && eq(o.linear.y, ey) && eq(o.angular.z, ez) && o.linear.z == 0 && o.angular.x == 0 && o.angular.y == 0,
                  "drive", "step " << i << ": expected (" << ex << " " << ey << " / " << ez << "), got " << str(o));
        held = true;
        held_at = w.now;
        ++driven;
      }
      else
      {
        // On release the latest command of the other source is in effect again.
        if (ctl == 1 && in_range)
        {
          PBT_CHECK(out->size() == 1, "release", "step " << i << ": " << out->size() << " outputs on release");
          ++released;
        }
        else
          PBT_CHECK(out->size() <= (held ? 1u : 0u), "release", "step " << i << ": output for a joystick message without the button");
        for (const auto& o : *out)
          PBT_CHECK(same(o.second, last), "release", "step " << i << ": output " << str(o.second) << " instead of the last command " << str(last));
        held = false;
      }
      PBT_CHECK(stat->empty(), "status", "status for a joystick message");
    }
    out->clear();
    stat->clear();
  }
  PBT_CHECK(!w.crashed, "crash", w.crash_what);
  w.stop();
  c.describe([&](std::ostream& o)
             { o << n << " steps, timeout " << timeout << ", driven " << driven << ", blocked " << blocked << ", passed " << passed << ", released " << released << ", expired " << expired; });
  c.label(released ? "released" : "not released");
  c.label(expired ? "expired" : "not expired");
  c.nontrivial(driven && blocked && passed);
}

PBT_FACET(mux, 1, "messages of both inputs were both forwarded and dropped")
{
  auto& s = c.src;
  sim::resetWorld();
  auto& w = sim::world();
  const bool compat = s.flip();
  w.setParam("/neonavigation_compatible", compat ? 0 : 1);
  const std::string ti[2] = {compat ? "/joystick_mux/input0" : "/mux_input0", compat ? "/joystick_mux/input1" : "/mux_input1"}, to = compat ? "/joystick_mux/output" : "/mux_output";
  int ib = 5;
  double timeout = 0.5;
  if (s.flip())
    w.setParam("/joystick_mux/interrupt_button", ib = s.irange(0, 6));
  if (s.flip())
    w.setParam("/joystick_mux/timeout", timeout = 0.05 * s.range(1, 20));
  const bool twist = s.flip();
  auto out_t = w.listen<geometry_msgs::Twist>(to);
  auto out_s = w.listen<std_msgs::String>(to);
  w.start([]
          { char n[] = "n"; char* a[] = {n, nullptr}; return joystick_mux_main(1, a); });
  w.settle();
  PBT_CHECK(!w.crashed, "crash", w.crash_what);
  const int64_t tns = std::llround(timeout * 1e9);
  bool sel1 = false;
  int64_t joy_at = w.now;
  int fwd[2] = {0, 0}, drop[2] = {0, 0}, fell = 0;
  const int n = s.range(2, 25);
  int id_counter = 0;
  for (int i = 0; i < n; ++i)
  {
    w.advance(gap(s, timeout));
    PBT_CHECK(out_t->empty() && out_s->empty(), "spontaneous", "output without input at step " << i);
    const int64_t el = w.now - joy_at;
    // The timeout is looked at ten times per second.
    const int sel = !sel1 ? 0 : el <= tns ? 1 : el > tns + 100001000 ? 0 : -1;
    if (s.chance(2, 3))
    {
      const int id = s.flip();
      ++id_counter;
      size_t got;
      bool eq = true;
      if (twist)
      {
        auto t = randTwist(s);
        w.publish(ti[id], t);
        w.settle();
        got = out_t->size();
        for (auto& o : *out_t)
          eq = eq && same(o.second, t);
        PBT_CHECK(out_s->empty(), "type", "message type changed");
      }
      else
      {
        std_msgs::String t;
        t.data = "m" + std::to_string(id_counter) + std::string(s.range(0, 30), 'x');
        w.publish(ti[id], t);
        w.settle();
        got = out_s->size();
        for (auto& o : *out_s)
          eq = eq && o.second.data == t.data;
        PBT_CHECK(out_t->empty(), "type", "message type changed");
      }
      PBT_CHECK(eq, "content", "step " << i << ": forwarded message differs");
      PBT_CHECK(got <= 1, "duplicate", "step " << i << ": forwarded " << got << " times");
      PBT_CHECK(sel < 0 || got == (sel == id ? 1u : 0u), "select", "step " << i << ": message on input " << id << " was forwarded " << got << " times while input " << sel << " is selected, last joystick message " << el * 1e-9 << " s ago");
      if (sel < 0 && sel1)
      {
        // the fallback cannot be undone without a joystick message
        if (got == (id == 0 ? 1u : 0u))
          sel1 = false;
      }
      (got ? fwd : drop)[id]++;
      fell += sel1 && sel == 0;
      if (sel == 0)
        sel1 = false;
    }
    else
    {
      sensor_msgs::Joy j;
      j.buttons.resize(s.chance(1, 4) ? s.range(0, 7) : 7);
      j.axes.resize(s.range(0, 3));
      for (auto& b : j.buttons)
        b = s.flip();
      w.publish("/joy", j);
      w.settle();
      if (static_cast<size_t>(ib) < j.buttons.size())
      {
        sel1 = j.buttons[ib];
        joy_at = w.now;
      }
      PBT_CHECK(out_t->empty() && out_s->empty(), "spontaneous", "joystick message was forwarded");
    }
    out_t->clear();
    out_s->clear();
  }
  w.stop();
  c.describe([&](std::ostream& o)
             { o << n << " steps, timeout " << timeout << ", forwarded " << fwd[0] << "/" << fwd[1] << ", dropped " << drop[0] << "/" << drop[1] << ", fell back " << fell; });
  c.label(fell ? "fell back" : "no fallback");
  c.nontrivial(fwd[0] && fwd[1] && drop[0] && drop[1]);
}
}  // namespace
