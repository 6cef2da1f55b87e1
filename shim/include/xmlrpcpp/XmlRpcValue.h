#ifndef SHIM_XMLRPC_VALUE_H
#define SHIM_XMLRPC_VALUE_H
#include <map>
#include <memory>
#include <ostream>
#include <string>
#include <vector>
#include <xmlrpcpp/XmlRpcException.h>
namespace XmlRpc
{
class XmlRpcValue
{
public:
  enum Type
  {
    TypeInvalid,
    TypeBoolean,
    TypeInt,
    TypeDouble,
    TypeString,
    TypeDateTime,
    TypeBase64,
    TypeArray,
    TypeStruct
  };
  typedef std::vector<XmlRpcValue> ValueArray;
  typedef std::map<std::string, XmlRpcValue> ValueStruct;
  typedef ValueStruct::iterator iterator;
  typedef ValueStruct::const_iterator const_iterator;

  XmlRpcValue() {}
  XmlRpcValue(bool v) : t_(TypeBoolean), b_(v) {}
  XmlRpcValue(int v) : t_(TypeInt), i_(v) {}
  XmlRpcValue(double v) : t_(TypeDouble), d_(v) {}
  XmlRpcValue(const std::string& v) : t_(TypeString), s_(v) {}
  XmlRpcValue(const char* v) : t_(TypeString), s_(v) {}

  Type getType() const { return t_; }
  bool valid() const { return t_ != TypeInvalid; }
  void clear() { *this = XmlRpcValue(); }
  int size() const
  {
    switch (t_)
    {
      case TypeString: return s_.size();
      case TypeArray: return a_.size();
      case TypeStruct: return m_.size();
      default: throw XmlRpcException("type error");
    }
  }
  void setSize(int n)
  {
    make(TypeArray);
    a_.resize(n);
  }
  bool hasMember(const std::string& n) const { return t_ == TypeStruct && m_.count(n); }
  operator bool&() { make(TypeBoolean); return b_; }
  operator int&() { make(TypeInt); return i_; }
  operator double&() { make(TypeDouble); return d_; }
  operator std::string&() { make(TypeString); return s_; }
  operator const bool&() const { need(TypeBoolean); return b_; }
  operator const int&() const { need(TypeInt); return i_; }
  operator const double&() const { need(TypeDouble); return d_; }
  operator const std::string&() const { need(TypeString); return s_; }
  XmlRpcValue& operator[](int i)
  {
    make(TypeArray);
    if (i < 0)
      throw XmlRpcException("range error: array index too large");
    if (static_cast<size_t>(i) >= a_.size())
      a_.resize(i + 1);
    return a_[i];
  }
  const XmlRpcValue& operator[](int i) const
  {
    need(TypeArray);
    if (i < 0 || static_cast<size_t>(i) >= a_.size())
      throw XmlRpcException("range error: array index too large");
    return a_[i];
  }
  XmlRpcValue& operator[](const std::string& k) { make(TypeStruct); return m_[k]; }
  XmlRpcValue& operator[](const char* k) { return (*this)[std::string(k)]; }
  const XmlRpcValue& operator[](const std::string& k) const
  {
    need(TypeStruct);
    auto it = m_.find(k);
    if (it == m_.end())
      throw XmlRpcException("unknown element");
    return it->second;
  }
  const XmlRpcValue& operator[](const char* k) const { return (*this)[std::string(k)]; }
  iterator begin() { make(TypeStruct); return m_.begin(); }
  iterator end() { make(TypeStruct); return m_.end(); }
  const_iterator begin() const { need(TypeStruct); return m_.begin(); }
  const_iterator end() const { need(TypeStruct); return m_.end(); }
  bool operator==(const XmlRpcValue& o) const
  {
    return t_ == o.t_ && b_ == o.b_ && i_ == o.i_ && d_ == o.d_ && s_ == o.s_ && a_ == o.a_ && m_ == o.m_;
  }
  void eraseMember(const std::string& n) { m_.erase(n); }
  std::string toXml() const { return "<value/>"; }
  // Arrays, doubles and integers only.
  bool fromXml(const std::string& x, int* off)
  {
    size_t at = *off;
    auto skip = [&]() { while (at < x.size() && isspace(x[at])) ++at; };
    auto tag = [&](const std::string& t) { skip(); if (x.compare(at, t.size(), t) != 0) return false; at += t.size(); return true; };
    *this = XmlRpcValue();
    if (!tag("<value>"))
      return false;
    if (tag("<array>"))
    {
      if (!tag("<data>"))
        return false;
      setSize(0);
      while (!tag("</data>"))
      {
        XmlRpcValue v;
        int o = at;
        if (!v.fromXml(x, &o))
          return false;
        at = o;
        a_.push_back(v);
      }
      if (!tag("</array>"))
        return false;
    }
    else if (tag("<double>") || tag("<int>") || tag("<i4>"))
    {
      const bool d = x[at - 2] == 'e';
      const size_t e = x.find('<', at);
      const std::string text = x.substr(at, e - at);
      *this = d ? XmlRpcValue(std::stod(text)) : XmlRpcValue(std::stoi(text));
      at = x.find('>', e) + 1;
    }
    if (!tag("</value>"))
      return false;
    *off = at;
    return true;
  }

private:
  void need(Type t) const
  {
    if (t_ != t)
      throw XmlRpcException("type error");
  }
  void make(Type t)
  {
    if (t_ == TypeInvalid)
      t_ = t;
    need(t);
  }
  Type t_ = TypeInvalid;
  bool b_ = false;
  int i_ = 0;
  double d_ = 0;
  std::string s_;
  ValueArray a_;
  ValueStruct m_;
};
inline std::ostream& operator<<(std::ostream& o, const XmlRpcValue& v)
{
  switch (v.getType())
  {
    case XmlRpcValue::TypeBoolean: return o << static_cast<const bool&>(v);
    case XmlRpcValue::TypeInt: return o << static_cast<const int&>(v);
    case XmlRpcValue::TypeDouble: return o << static_cast<const double&>(v);
    case XmlRpcValue::TypeString: return o << static_cast<const std::string&>(v);
    case XmlRpcValue::TypeArray:
      for (int i = 0; i < v.size(); ++i)
        o << (i ? "," : "{") << v[i];
      return o << "}";
    case XmlRpcValue::TypeStruct:
      o << "[";
      for (auto& e : v)
        o << e.first << ":" << e.second << ",";
      return o << "]";
    default: return o;
  }
}
}  // namespace XmlRpc
#endif
