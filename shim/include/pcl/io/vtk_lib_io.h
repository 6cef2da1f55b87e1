// Wavefront OBJ (vertices and polygon faces) and ASCII PCD files.
#ifndef SHIM_PCL_VTK_LIB_IO_H
#define SHIM_PCL_VTK_LIB_IO_H
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <pcl/point_cloud.h>
namespace pcl
{
struct PCLPointCloud2
{
  PCLHeader header;
  std::vector<PointXYZ> pts;
};
struct Vertices
{
  std::vector<uint32_t> vertices;
};
struct PolygonMesh
{
  typedef boost::shared_ptr<PolygonMesh> Ptr;
  PCLHeader header;
  PCLPointCloud2 cloud;
  std::vector<Vertices> polygons;
};
inline void fromPCLPointCloud2(const PCLPointCloud2& m, PointCloud<PointXYZ>& c)
{
  c.clear();
  c.header = m.header;
  for (const auto& p : m.pts)
    c.push_back(p);
}
namespace io
{
inline int loadPolygonFileOBJ(const std::string& file, PolygonMesh& mesh)
{
  std::ifstream f(file);
  if (!f)
    return 0;
  mesh = PolygonMesh();
  std::string line;
  while (std::getline(f, line))
  {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "v")
    {
      PointXYZ p;
      s >> p.x >> p.y >> p.z;
      mesh.cloud.pts.push_back(p);
    }
    else if (k == "f")
    {
      Vertices v;
      std::string w;
      while (s >> w)
        v.vertices.push_back(std::stoul(w.substr(0, w.find('/'))) - 1);
      mesh.polygons.push_back(v);
    }
  }
  return mesh.cloud.pts.size();
}
inline int loadPCDFile(const std::string& file, PointCloud<PointXYZ>& c)
{
  std::ifstream f(file);
  if (!f)
    return -1;
  c.clear();
  std::string line;
  bool data = false;
  while (std::getline(f, line))
  {
    if (data)
    {
      std::istringstream s(line);
      PointXYZ p;
      if (s >> p.x >> p.y >> p.z)
        c.push_back(p);
    }
    else if (line.compare(0, 4, "DATA") == 0)
      data = true;
  }
  return 0;
}
}  // namespace io
}  // namespace pcl
#endif
