// Small property-based testing engine used by every harness in /verif/props.
//
// A property is a function that draws all of its inputs from a Src ("choice
// tape").  Running with a seed records the tape; replaying a tape reproduces
// the case exactly; shrinking deletes and lowers tape entries and keeps a
// candidate only if the same check (same tag) still fails.  Every candidate is
// executed in a forked child, so assertion failures, sanitizer reports, crashes
// and endless loops are ordinary failures that shrink like any other.
//
// The same properties can be linked with libFuzzer (define PBT_LIBFUZZER):
// there the tape is decoded from the fuzzer's bytes.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <unistd.h>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};
inline uint64_t mix(uint64_t a, uint64_t b)
{
  Rng r(a * 0x9E3779B97F4A7C15ull + b + 0x1234567);
  r.next();
  return r.next();
}

struct Fail
{
  std::string tag;
  std::string msg;
};
struct Discard
{
};

// Source of choices.
class Src
{
public:
  explicit Src(uint64_t seed) : rng_(seed), mode_(0) {}
  explicit Src(const std::vector<uint64_t>& tape) : rng_(0), mode_(1), in_(tape) {}
  Src(const uint8_t* d, size_t n) : rng_(0), mode_(2), d_(d), n_(n) {}

  // Uniform in [0, n]; 0 is the simplest choice.
  uint64_t draw(uint64_t n)
  {
    uint64_t v = 0;
    if (mode_ == 0)
    {
      v = rng_.next();
      v = n == UINT64_MAX ? v : v % (n + 1);
    }
    else if (mode_ == 1)
    {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      if (v > n)
        v = v % (n + 1);
    }
    else
    {
      int bytes = n < 0x100 ? 1 : n < 0x10000 ? 2 : n < 0x100000000ull ? 4 : 8;
      for (int i = 0; i < bytes && pos_ + i < n_; ++i)
        v |= static_cast<uint64_t>(d_[pos_ + i]) << (8 * i);
      pos_ += bytes - 1;
      if (v > n)
        v = v % (n + 1);
    }
    ++pos_;
    rec.push_back(v);
    if (rec.size() > kMaxTape)
      throw Discard();
    return v;
  }
  // Integer in [lo, hi], shrinking to lo (or to 0 when it is inside the range).
  int64_t range(int64_t lo, int64_t hi)
  {
    if (hi <= lo)
    {
      return lo;
    }
    if (lo < 0 && hi > 0)
    {
      const uint64_t k = draw(static_cast<uint64_t>(hi) - lo);
      return k <= static_cast<uint64_t>(hi) ? static_cast<int64_t>(k) : -static_cast<int64_t>(k - hi);
    }
    if (hi <= 0 && lo < 0)
    {
      return hi - static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo)));
    }
    return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo)));
  }
  int irange(int lo, int hi) { return static_cast<int>(range(lo, hi)); }
  // true with probability num/den; shrinks to false.
  bool chance(int num, int den) { return static_cast<int>(draw(den - 1)) >= den - num; }
  bool flip() { return draw(1) == 1; }
  // Real number in [lo, hi] on a grid of `steps` cells (shrinks to lo, or to 0 if inside).
  double real(double lo, double hi, int steps = 1 << 20)
  {
    const uint64_t k = draw(steps);
    const double v = lo + (hi - lo) * (static_cast<double>(k) / steps);
    return v;
  }
  // Symmetric real in [-m, m] shrinking to 0.
  double sym(double m, int steps = 1 << 20)
  {
    const int64_t k = range(-steps, steps);
    return m * (static_cast<double>(k) / steps);
  }
  template <class T>
  const T& pick(const std::vector<T>& v)
  {
    return v[draw(v.size() - 1)];
  }
  template <class T>
  T pick(std::initializer_list<T> v)
  {
    return *(v.begin() + draw(v.size() - 1));
  }
  // Index by integer weights.
  size_t weighted(const std::vector<int>& w)
  {
    int total = 0;
    for (int x : w)
      total += x;
    int64_t k = static_cast<int64_t>(draw(total - 1));
    for (size_t i = 0; i < w.size(); ++i)
    {
      if (k < w[i])
        return i;
      k -= w[i];
    }
    return w.size() - 1;
  }
  uint64_t bits() { return draw(UINT64_MAX); }

  std::vector<uint64_t> rec;
  static constexpr size_t kMaxTape = 400000;

private:
  Rng rng_;
  int mode_;
  std::vector<uint64_t> in_;
  const uint8_t* d_ = nullptr;
  size_t n_ = 0;
  size_t pos_ = 0;
};

class Ctx
{
public:
  explicit Ctx(Src& s) : src(s) {}
  Src& src;
  bool want_text = false;
  bool nontrivial_ = false;
  std::string text;
  std::vector<std::string> labels;

  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void label(const std::string& l) { labels.push_back(l); }
  void labelIf(bool b, const std::string& l)
  {
    if (b)
      labels.push_back(l);
  }
  // Describe the case (evaluated only when somebody reads it).
  template <class F>
  void describe(F f)
  {
    if (want_text)
    {
      std::ostringstream o;
      f(o);
      text += o.str();
    }
  }
};

// Text that describes the case also when a check in it fails.
// Describes the case while it runs; also to a file when the case may not end.
extern int g_scribe_fd;
struct Scribe : std::ostream
{
  struct Buf : std::streambuf
  {
    Ctx& c_;
    explicit Buf(Ctx& c) : c_(c) {}
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
      if (c_.want_text)
      {
        c_.text.append(s, n);
        if (g_scribe_fd >= 0 && ::write(g_scribe_fd, s, n) < 0)
          g_scribe_fd = -1;
      }
      return n;
    }
    int overflow(int v) override
    {
      const char ch = v;
      xsputn(&ch, 1);
      return v;
    }
  } buf_;
  explicit Scribe(Ctx& c) : std::ostream(nullptr), buf_(c) { rdbuf(&buf_); }
};

using PropFn = void (*)(Ctx&);
struct Facet
{
  std::string name;
  std::string rule;
  PropFn fn;
  int weight;
};
std::vector<Facet>& facets();
struct Reg
{
  Reg(const char* name, int weight, const char* rule, PropFn fn)
  {
    facets().push_back({name, rule, fn, weight});
  }
};

inline void failNow(const std::string& tag, const std::string& msg)
{
  throw Fail{tag, msg};
}
}  // namespace pbt

// name: identifier; weight: share of the time; rule: how cases are made and what is non-trivial.
#define PBT_FACET(name, weight, rule)                                          \
  static void pbt_facet_##name(pbt::Ctx& c);                                   \
  static pbt::Reg pbt_reg_##name(#name, weight, rule, &pbt_facet_##name);      \
  static void pbt_facet_##name(pbt::Ctx& c)

#define PBT_CHECK(cond, tag, stream_expr)                                      \
  do                                                                           \
  {                                                                            \
    if (!(cond))                                                               \
    {                                                                          \
      std::ostringstream pbt_os_;                                              \
      pbt_os_.precision(9);                                                    \
      pbt_os_ << stream_expr;                                                  \
      pbt::failNow(tag, pbt_os_.str());                                        \
    }                                                                          \
  } while (0)

#endif  // VERIF_PBT_H
