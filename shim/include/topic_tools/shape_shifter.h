#ifndef SHIM_SHAPE_SHIFTER_H
#define SHIM_SHAPE_SHIFTER_H
#include <ros/ros.h>
namespace topic_tools
{
class ShapeShifterException : public ros::Exception
{
  using ros::Exception::Exception;
};
class ShapeShifter
{
public:
  typedef boost::shared_ptr<ShapeShifter> Ptr;
  typedef boost::shared_ptr<ShapeShifter const> ConstPtr;
  const std::string& getDataType() const { return any_.type; }
  const std::string& getMD5Sum() const { return any_.type; }
  const std::string& getMessageDefinition() const { return any_.type; }
  ros::Publisher advertise(ros::NodeHandle& nh, const std::string& topic, uint32_t queue, bool latch = false) const
  {
    return nh.advertiseType(topic, any_.type, latch);
  }
  uint32_t size() const { return any_.bytes ? any_.bytes().size() : 0; }
  template <class M>
  boost::shared_ptr<M> instantiate() const
  {
    if (any_.type != M::dataType())
      throw ShapeShifterException("Tried to instantiate message without matching md5sum.");
    return boost::make_shared<M>(*boost::static_pointer_cast<M const>(any_.ptr));
  }
  static const char* dataType() { return "*"; }
  const sim::AnyMsg& shim_any() const { return any_; }
  static boost::shared_ptr<ShapeShifter const> shim_from(const sim::AnyMsg& m)
  {
    auto s = boost::make_shared<ShapeShifter>();
    s->any_ = m;
    return s;
  }

private:
  sim::AnyMsg any_;
};
}  // namespace topic_tools
#endif
