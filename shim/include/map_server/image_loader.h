// The loader of map_server for binary grey-scale PGM images.
#ifndef SHIM_MAP_SERVER_IMAGE_LOADER_H
#define SHIM_MAP_SERVER_IMAGE_LOADER_H
#include <cmath>
#include <fstream>
#include <stdexcept>
#include <string>
#include <nav_msgs/GetMap.h>
enum MapMode
{
  TRINARY,
  SCALE,
  RAW
};
namespace map_server
{
inline int pgmInt(std::istream& f)
{
  while (true)
  {
    const int c = f.peek();
    if (c == '#')
    {
      std::string skip;
      std::getline(f, skip);
    }
    else if (c == ' ' || c == '\n' || c == '\t' || c == '\r')
      f.get();
    else
      break;
  }
  int v = -1;
  f >> v;
  return v;
}
inline void loadMapFromFile(nav_msgs::GetMap::Response* resp, const char* fname, double res, bool negate, double occ_th, double free_th, double* origin, MapMode mode = TRINARY)
{
  std::ifstream f(fname, std::ios::binary);
  std::string magic;
  if (f)
    f >> magic;
  const int w = magic == "P5" ? pgmInt(f) : -1, h = magic == "P5" ? pgmInt(f) : -1, top = magic == "P5" ? pgmInt(f) : -1;
  if (w <= 0 || h <= 0 || top != 255)
    throw std::runtime_error(std::string("failed to open image file \"") + fname + "\"");
  f.get();
  std::string px(static_cast<size_t>(w) * h, 0);
  f.read(&px[0], px.size());
  if (f.gcount() != static_cast<std::streamsize>(px.size()))
    throw std::runtime_error(std::string("failed to open image file \"") + fname + "\"");
  auto& m = resp->map;
  m.info.width = w;
  m.info.height = h;
  m.info.resolution = res;
  m.info.origin.position.x = origin[0];
  m.info.origin.position.y = origin[1];
  m.info.origin.position.z = 0;
  m.info.origin.orientation.z = std::sin(origin[2] / 2);
  m.info.origin.orientation.w = std::cos(origin[2] / 2);
  m.data.assign(px.size(), 0);
  for (int j = 0; j < h; ++j)
    for (int i = 0; i < w; ++i)
    {
      double grey = static_cast<uint8_t>(px[j * w + i]);
      if (negate)
        grey = 255 - grey;
      int8_t v;
      const double occ = (255 - grey) / 255.0;
      if (mode == RAW)
        v = static_cast<int8_t>(grey);
      else if (occ > occ_th)
        v = 100;
      else if (occ < free_th)
        v = 0;
      else if (mode == TRINARY)
        v = -1;
      else
        v = static_cast<int8_t>(1 + 98 * ((occ - free_th) / (occ_th - free_th)));
      m.data[(h - j - 1) * w + i] = v;
    }
}
}  // namespace map_server
#endif
