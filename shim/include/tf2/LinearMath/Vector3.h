#ifndef SHIM_TF2_VECTOR3_H
#define SHIM_TF2_VECTOR3_H
#include <cmath>
typedef double tf2Scalar;
typedef double tfScalar;
namespace tf2
{
class Vector3
{
public:
  double m_floats[4];
  Vector3() : m_floats{0, 0, 0, 0} {}
  Vector3(const double& x, const double& y, const double& z) : m_floats{x, y, z, 0} {}
  const double& getX() const { return m_floats[0]; }
  const double& getY() const { return m_floats[1]; }
  const double& getZ() const { return m_floats[2]; }
  const double& x() const { return m_floats[0]; }
  const double& y() const { return m_floats[1]; }
  const double& z() const { return m_floats[2]; }
  void setX(double v) { m_floats[0] = v; }
  void setY(double v) { m_floats[1] = v; }
  void setZ(double v) { m_floats[2] = v; }
  void setValue(const double& x, const double& y, const double& z) { *this = Vector3(x, y, z); }
  void setZero() { setValue(0, 0, 0); }
  operator double*() { return m_floats; }
  operator const double*() const { return m_floats; }
  Vector3& operator+=(const Vector3& v) { return *this = Vector3(x() + v.x(), y() + v.y(), z() + v.z()); }
  Vector3& operator-=(const Vector3& v) { return *this = Vector3(x() - v.x(), y() - v.y(), z() - v.z()); }
  Vector3& operator*=(const double& s) { return *this = Vector3(x() * s, y() * s, z() * s); }
  Vector3& operator/=(const double& s) { return *this *= 1.0 / s; }
  double dot(const Vector3& v) const { return x() * v.x() + y() * v.y() + z() * v.z(); }
  Vector3 cross(const Vector3& v) const { return Vector3(y() * v.z() - z() * v.y(), z() * v.x() - x() * v.z(), x() * v.y() - y() * v.x()); }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  inline double distance(const Vector3& v) const;
  inline double distance2(const Vector3& v) const;
  Vector3& normalize() { return *this /= length(); }
  inline Vector3 normalized() const;
  inline Vector3 rotate(const Vector3& axis, const double angle) const;
  double angle(const Vector3& v) const { return std::acos(dot(v) / std::sqrt(length2() * v.length2())); }
  inline Vector3 lerp(const Vector3& v, const double& t) const
  {
    return Vector3(x() + (v.x() - x()) * t, y() + (v.y() - y()) * t, z() + (v.z() - z()) * t);
  }
  Vector3 absolute() const { return Vector3(std::fabs(x()), std::fabs(y()), std::fabs(z())); }
  bool operator==(const Vector3& v) const { return x() == v.x() && y() == v.y() && z() == v.z(); }
  bool operator!=(const Vector3& v) const { return !(*this == v); }
  bool isZero() const { return x() == 0 && y() == 0 && z() == 0; }
};
inline Vector3 operator+(const Vector3& a, const Vector3& b) { return Vector3(a.x() + b.x(), a.y() + b.y(), a.z() + b.z()); }
inline Vector3 operator-(const Vector3& a, const Vector3& b) { return Vector3(a.x() - b.x(), a.y() - b.y(), a.z() - b.z()); }
inline Vector3 operator*(const Vector3& a, const Vector3& b) { return Vector3(a.x() * b.x(), a.y() * b.y(), a.z() * b.z()); }
inline Vector3 operator-(const Vector3& v) { return Vector3(-v.x(), -v.y(), -v.z()); }
inline Vector3 operator*(const Vector3& v, const double& s) { return Vector3(v.x() * s, v.y() * s, v.z() * s); }
inline Vector3 operator*(const double& s, const Vector3& v) { return v * s; }
inline Vector3 operator/(const Vector3& v, const double& s) { return v * (1.0 / s); }
inline double Vector3::distance2(const Vector3& v) const { return (v - *this).length2(); }
inline double Vector3::distance(const Vector3& v) const { return (v - *this).length(); }
inline Vector3 Vector3::normalized() const { return *this / length(); }
inline Vector3 Vector3::rotate(const Vector3& axis, const double angle) const
{
  const Vector3 o = axis * axis.dot(*this);
  const Vector3 x = *this - o;
  const Vector3 y = axis.cross(*this);
  return o + x * std::cos(angle) + y * std::sin(angle);
}
inline double tf2Dot(const Vector3& a, const Vector3& b) { return a.dot(b); }
inline double tf2Distance(const Vector3& a, const Vector3& b) { return a.distance(b); }
inline Vector3 tf2Cross(const Vector3& a, const Vector3& b) { return a.cross(b); }
}  // namespace tf2
#endif
