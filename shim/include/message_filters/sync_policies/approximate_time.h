#ifndef SHIM_MESSAGE_FILTERS_APPROXIMATE_TIME_H
#define SHIM_MESSAGE_FILTERS_APPROXIMATE_TIME_H
#include <cstdint>
namespace message_filters
{
namespace sync_policies
{
// Pairs messages of equal stamps, in the order of the stamps: what the real
// policy does with sources that share their stamps.  Messages older than a
// matched pair are dropped.
template <class A, class B>
struct ApproximateTime
{
  using M0 = A;
  using M1 = B;
  uint32_t size;
  explicit ApproximateTime(uint32_t n) : size(n) {}
};
}  // namespace sync_policies
}  // namespace message_filters
#endif
