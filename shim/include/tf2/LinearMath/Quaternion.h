#ifndef SHIM_TF2_QUATERNION_H
#define SHIM_TF2_QUATERNION_H
#include <algorithm>
#include <tf2/LinearMath/Vector3.h>
namespace tf2
{
class Quaternion
{
public:
  double m_floats[4];
  Quaternion() : m_floats{0, 0, 0, 0} {}
  Quaternion(const double& x, const double& y, const double& z, const double& w) : m_floats{x, y, z, w} {}
  Quaternion(const Vector3& axis, const double& angle) { setRotation(axis, angle); }
  const double& x() const { return m_floats[0]; }
  const double& y() const { return m_floats[1]; }
  const double& z() const { return m_floats[2]; }
  const double& w() const { return m_floats[3]; }
  const double& getX() const { return m_floats[0]; }
  const double& getY() const { return m_floats[1]; }
  const double& getZ() const { return m_floats[2]; }
  const double& getW() const { return m_floats[3]; }
  void setX(double v) { m_floats[0] = v; }
  void setY(double v) { m_floats[1] = v; }
  void setZ(double v) { m_floats[2] = v; }
  void setW(double v) { m_floats[3] = v; }
  void setValue(const double& x, const double& y, const double& z, const double& w) { *this = Quaternion(x, y, z, w); }
  void setRotation(const Vector3& axis, const double& angle)
  {
    const double d = axis.length();
    const double s = std::sin(angle * 0.5) / d;
    setValue(axis.x() * s, axis.y() * s, axis.z() * s, std::cos(angle * 0.5));
  }
  void setRPY(const double& roll, const double& pitch, const double& yaw)
  {
    const double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    const double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy);
  }
  void setEuler(const double& yaw, const double& pitch, const double& roll)
  {
    const double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    const double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr);
    setValue(cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, sr * cp * cy - cr * sp * sy, cr * cp * cy + sr * sp * sy);
  }
  double dot(const Quaternion& q) const { return x() * q.x() + y() * q.y() + z() * q.z() + w() * q.w(); }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  Quaternion& operator*=(const Quaternion& q)
  {
    setValue(w() * q.x() + x() * q.w() + y() * q.z() - z() * q.y(),
             w() * q.y() + y() * q.w() + z() * q.x() - x() * q.z(),
             w() * q.z() + z() * q.w() + x() * q.y() - y() * q.x(),
             w() * q.w() - x() * q.x() - y() * q.y() - z() * q.z());
    return *this;
  }
  Quaternion operator*(const double& s) const { return Quaternion(x() * s, y() * s, z() * s, w() * s); }
  Quaternion operator/(const double& s) const { return *this * (1.0 / s); }
  Quaternion& operator/=(const double& s) { return *this = *this / s; }
  Quaternion operator+(const Quaternion& q) const { return Quaternion(x() + q.x(), y() + q.y(), z() + q.z(), w() + q.w()); }
  Quaternion operator-(const Quaternion& q) const { return Quaternion(x() - q.x(), y() - q.y(), z() - q.z(), w() - q.w()); }
  Quaternion operator-() const { return Quaternion(-x(), -y(), -z(), -w()); }
  Quaternion& normalize() { return *this /= length(); }
  Quaternion normalized() const { return *this / length(); }
  Quaternion inverse() const { return Quaternion(-x(), -y(), -z(), w()); }
  double angle(const Quaternion& q) const { return std::acos(dot(q) / std::sqrt(length2() * q.length2())); }
  double angleShortestPath(const Quaternion& q) const
  {
    const double s = std::sqrt(length2() * q.length2());
    double d = dot(q);
    if (d < 0)
      return std::acos(std::min(1.0, -d / s)) * 2.0;
    return std::acos(std::min(1.0, d / s)) * 2.0;
  }
  static double clampAcos(double v) { return std::acos(v < -1 ? -1 : v > 1 ? 1 : v); }
  double getAngle() const { return 2.0 * clampAcos(w()); }
  double getAngleShortestPath() const { return 2.0 * clampAcos(std::fabs(w())) ; }
  Vector3 getAxis() const
  {
    const double s2 = 1.0 - std::pow(w(), 2.0);
    if (s2 < 10.0 * 2.220446049250313e-16)
      return Vector3(1, 0, 0);
    const double s = std::sqrt(s2);
    return Vector3(x() / s, y() / s, z() / s);
  }
  Quaternion slerp(const Quaternion& q, const double& t) const
  {
    const double theta = angleShortestPath(q) / 2.0;
    if (theta != 0.0)
    {
      const double d = 1.0 / std::sin(theta);
      const double s0 = std::sin((1.0 - t) * theta);
      const double s1 = std::sin(t * theta);
      const double sg = dot(q) < 0 ? -1 : 1;
      return Quaternion((x() * s0 + sg * q.x() * s1) * d, (y() * s0 + sg * q.y() * s1) * d,
                        (z() * s0 + sg * q.z() * s1) * d, (w() * s0 + sg * q.w() * s1) * d);
    }
    return *this;
  }
  static const Quaternion& getIdentity()
  {
    static const Quaternion q(0, 0, 0, 1);
    return q;
  }
};
inline Quaternion operator*(const Quaternion& a, const Quaternion& b)
{
  Quaternion q = a;
  q *= b;
  return q;
}
inline Quaternion operator*(const double& s, const Quaternion& q) { return q * s; }
inline Quaternion inverse(const Quaternion& q) { return q.inverse(); }
inline double length(const Quaternion& q) { return q.length(); }
inline Quaternion slerp(const Quaternion& a, const Quaternion& b, const double& t) { return a.slerp(b, t); }
inline Vector3 quatRotate(const Quaternion& r, const Vector3& v)
{
  Quaternion q = r * Quaternion(v.x(), v.y(), v.z(), 0) * r.inverse();
  return Vector3(q.x(), q.y(), q.z());
}
}  // namespace tf2
#endif
