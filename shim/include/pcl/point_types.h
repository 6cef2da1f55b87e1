#ifndef SHIM_PCL_POINT_TYPES_H
#define SHIM_PCL_POINT_TYPES_H
namespace pcl
{
struct PointXYZ
{
  float x = 0, y = 0, z = 0;
  PointXYZ() {}
  PointXYZ(float _x, float _y, float _z) : x(_x), y(_y), z(_z) {}
};
}  // namespace pcl
#endif
