#ifndef SHIM_MESSAGE_FILTERS_SYNCHRONIZER_H
#define SHIM_MESSAGE_FILTERS_SYNCHRONIZER_H
#include <deque>
#include <functional>
#include <message_filters/subscriber.h>
namespace message_filters
{
template <class P>
class Synchronizer
{
  using A = typename P::M0;
  using B = typename P::M1;
  uint32_t size_;
  std::deque<boost::shared_ptr<A const>> a_;
  std::deque<boost::shared_ptr<B const>> b_;
  std::function<void(const boost::shared_ptr<A const>&, const boost::shared_ptr<B const>&)> cb_;
  void match()
  {
    for (size_t i = 0; i < a_.size(); ++i)
      for (size_t j = 0; j < b_.size(); ++j)
        if (a_[i]->header.stamp == b_[j]->header.stamp)
        {
          const auto a = a_[i];
          const auto b = b_[j];
          a_.erase(a_.begin(), a_.begin() + i + 1);
          b_.erase(b_.begin(), b_.begin() + j + 1);
          if (cb_)
            cb_(a, b);
          match();
          return;
        }
    while (a_.size() > size_)
      a_.pop_front();
    while (b_.size() > size_)
      b_.pop_front();
  }

public:
  Synchronizer(const P& p, Subscriber<A>& a, Subscriber<B>& b) : size_(p.size)
  {
    a.add([this](const boost::shared_ptr<A const>& m) { a_.push_back(m); match(); });
    b.add([this](const boost::shared_ptr<B const>& m) { b_.push_back(m); match(); });
  }
  Synchronizer(const Synchronizer&) = delete;
  template <class F>
  void registerCallback(const F& f) { cb_ = f; }
};
}  // namespace message_filters
#endif
