#ifndef SHIM_TF2_DATATYPES_H
#define SHIM_TF2_DATATYPES_H
#include <string>
#include <ros/time.h>
namespace tf2
{
template <typename T>
class Stamped : public T
{
public:
  ros::Time stamp_;
  std::string frame_id_;
  Stamped() : frame_id_("NO_ID_STAMPED_DEFAULT_CONSTRUCTION") {}
  Stamped(const T& in, const ros::Time& t, const std::string& f) : T(in), stamp_(t), frame_id_(f) {}
  void setData(const T& in) { *static_cast<T*>(this) = in; }
};
}  // namespace tf2
#endif
