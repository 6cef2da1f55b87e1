// The subset of yaml-cpp 0.5 that map files need: "key: scalar" and
// "key: [scalar, ...]" lines.
#ifndef SHIM_YAML_CPP_YAML_H
#define SHIM_YAML_CPP_YAML_H
#include <istream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace YAML
{
class Exception : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
};
class RepresentationException : public Exception
{
public:
  using Exception::Exception;
};
class InvalidScalar : public RepresentationException
{
public:
  using RepresentationException::RepresentationException;
};
class BadConversion : public RepresentationException
{
public:
  using RepresentationException::RepresentationException;
};
class Node
{
public:
  bool valid = false;
  std::string scalar;
  std::vector<Node> seq;
  std::map<std::string, Node> fields;
  Node operator[](const char* k) const
  {
    const auto it = fields.find(k);
    return it == fields.end() ? Node() : it->second;
  }
  Node operator[](int k) const { return k >= 0 && k < static_cast<int>(seq.size()) ? seq[k] : Node(); }
  template <class T>
  T as() const
  {
    if (!valid)
      throw RepresentationException("invalid node; this may result from using a map iterator as a sequence iterator, or vice-versa");
    T v;
    get(v);
    return v;
  }

private:
  void get(std::string& v) const { v = scalar; }
  template <class T>
  void get(T& v) const
  {
    std::istringstream s(scalar);
    if (!(s >> v) || !s.eof())
      throw BadConversion("bad conversion");
  }
};
inline std::string trim(const std::string& s)
{
  const size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
inline Node Load(std::istream& in)
{
  Node doc;
  doc.valid = true;
  std::string line;
  while (std::getline(in, line))
  {
    if (trim(line).empty() || trim(line)[0] == '#')
      continue;
    const size_t c = line.find(": ");
    if (c == std::string::npos)
      throw Exception("unsupported line: " + line);
    Node v;
    v.valid = true;
    v.scalar = trim(line.substr(c + 2));
    if (!v.scalar.empty() && v.scalar[0] == '[')
    {
      std::istringstream s(v.scalar.substr(1, v.scalar.size() - 2));
      std::string item;
      while (std::getline(s, item, ','))
      {
        Node e;
        e.valid = true;
        e.scalar = trim(item);
        v.seq.push_back(e);
      }
    }
    doc.fields[trim(line.substr(0, c))] = v;
  }
  return doc;
}
}  // namespace YAML
#endif
