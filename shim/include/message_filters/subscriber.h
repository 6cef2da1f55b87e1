#ifndef SHIM_MESSAGE_FILTERS_SUBSCRIBER_H
#define SHIM_MESSAGE_FILTERS_SUBSCRIBER_H
#include <functional>
#include <string>
#include <vector>
#include <ros/ros.h>
namespace message_filters
{
template <class M>
class Subscriber
{
  ros::Subscriber sub_;
  std::vector<std::function<void(const boost::shared_ptr<M const>&)>> cbs_;
  void got(const boost::shared_ptr<M const>& m)
  {
    for (auto& f : cbs_)
      f(m);
  }

public:
  using Message = M;
  Subscriber(ros::NodeHandle& nh, const std::string& topic, uint32_t queue, const ros::TransportHints& = ros::TransportHints())
  {
    sub_ = nh.subscribe(topic, queue, &Subscriber::got, this);
  }
  Subscriber(const Subscriber&) = delete;
  void add(const std::function<void(const boost::shared_ptr<M const>&)>& f) { cbs_.push_back(f); }
};
}  // namespace message_filters
#endif
