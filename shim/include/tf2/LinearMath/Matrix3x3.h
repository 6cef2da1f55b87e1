#ifndef SHIM_TF2_MATRIX3X3_H
#define SHIM_TF2_MATRIX3X3_H
#include <tf2/LinearMath/Quaternion.h>
namespace tf2
{
class Matrix3x3
{
public:
  Vector3 m_el[3];
  Matrix3x3() {}
  explicit Matrix3x3(const Quaternion& q) { setRotation(q); }
  Matrix3x3(const double& xx, const double& xy, const double& xz, const double& yx, const double& yy, const double& yz,
            const double& zx, const double& zy, const double& zz)
  {
    setValue(xx, xy, xz, yx, yy, yz, zx, zy, zz);
  }
  void setValue(const double& xx, const double& xy, const double& xz, const double& yx, const double& yy, const double& yz,
                const double& zx, const double& zy, const double& zz)
  {
    m_el[0].setValue(xx, xy, xz);
    m_el[1].setValue(yx, yy, yz);
    m_el[2].setValue(zx, zy, zz);
  }
  void setIdentity() { setValue(1, 0, 0, 0, 1, 0, 0, 0, 1); }
  static const Matrix3x3& getIdentity()
  {
    static const Matrix3x3 m(1, 0, 0, 0, 1, 0, 0, 0, 1);
    return m;
  }
  Vector3 getColumn(int i) const { return Vector3(m_el[0][i], m_el[1][i], m_el[2][i]); }
  const Vector3& getRow(int i) const { return m_el[i]; }
  Vector3& operator[](int i) { return m_el[i]; }
  const Vector3& operator[](int i) const { return m_el[i]; }
  void setRotation(const Quaternion& q)
  {
    const double d = q.length2();
    const double s = 2.0 / d;
    const double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    const double wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs;
    const double xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs;
    const double yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    setValue(1.0 - (yy + zz), xy - wz, xz + wy, xy + wz, 1.0 - (xx + zz), yz - wx, xz - wy, yz + wx, 1.0 - (xx + yy));
  }
  void setRPY(double r, double p, double y)
  {
    Quaternion q;
    q.setRPY(r, p, y);
    setRotation(q);
  }
  void getRotation(Quaternion& q) const
  {
    const double tr = m_el[0].x() + m_el[1].y() + m_el[2].z();
    double t[4];
    if (tr > 0)
    {
      double s = std::sqrt(tr + 1.0);
      t[3] = s * 0.5;
      s = 0.5 / s;
      t[0] = (m_el[2].y() - m_el[1].z()) * s;
      t[1] = (m_el[0].z() - m_el[2].x()) * s;
      t[2] = (m_el[1].x() - m_el[0].y()) * s;
    }
    else
    {
      const int i = m_el[0].x() < m_el[1].y() ? (m_el[1].y() < m_el[2].z() ? 2 : 1) : (m_el[0].x() < m_el[2].z() ? 2 : 0);
      const int j = (i + 1) % 3, k = (i + 2) % 3;
      double s = std::sqrt(m_el[i][i] - m_el[j][j] - m_el[k][k] + 1.0);
      t[i] = s * 0.5;
      s = 0.5 / s;
      t[3] = (m_el[k][j] - m_el[j][k]) * s;
      t[j] = (m_el[j][i] + m_el[i][j]) * s;
      t[k] = (m_el[k][i] + m_el[i][k]) * s;
    }
    q.setValue(t[0], t[1], t[2], t[3]);
  }
  void getRPY(double& roll, double& pitch, double& yaw, unsigned int = 1) const
  {
    if (std::fabs(m_el[2].x()) >= 1)
    {
      yaw = 0;
      const double delta = std::atan2(m_el[2].y(), m_el[2].z());
      if (m_el[2].x() < 0)
      {
        pitch = M_PI / 2;
        roll = delta;
      }
      else
      {
        pitch = -M_PI / 2;
        roll = delta;
      }
    }
    else
    {
      pitch = -std::asin(m_el[2].x());
      roll = std::atan2(m_el[2].y() / std::cos(pitch), m_el[2].z() / std::cos(pitch));
      yaw = std::atan2(m_el[1].x() / std::cos(pitch), m_el[0].x() / std::cos(pitch));
    }
  }
  void getEulerYPR(double& yaw, double& pitch, double& roll, unsigned int = 1) const { getRPY(roll, pitch, yaw); }
  Matrix3x3 transpose() const
  {
    return Matrix3x3(m_el[0].x(), m_el[1].x(), m_el[2].x(), m_el[0].y(), m_el[1].y(), m_el[2].y(), m_el[0].z(), m_el[1].z(), m_el[2].z());
  }
  Matrix3x3 inverse() const
  {
    const Vector3 c0 = m_el[1].cross(m_el[2]), c1 = m_el[2].cross(m_el[0]), c2 = m_el[0].cross(m_el[1]);
    const double s = 1.0 / m_el[0].dot(c0);
    return Matrix3x3(c0.x() * s, c1.x() * s, c2.x() * s, c0.y() * s, c1.y() * s, c2.y() * s, c0.z() * s, c1.z() * s, c2.z() * s);
  }
};
inline Vector3 operator*(const Matrix3x3& m, const Vector3& v) { return Vector3(m[0].dot(v), m[1].dot(v), m[2].dot(v)); }
inline Vector3 operator*(const Vector3& v, const Matrix3x3& m) { return m.transpose() * v; }
inline Matrix3x3 operator*(const Matrix3x3& a, const Matrix3x3& b)
{
  const Matrix3x3 t = b.transpose();
  return Matrix3x3(a[0].dot(t[0]), a[0].dot(t[1]), a[0].dot(t[2]), a[1].dot(t[0]), a[1].dot(t[1]), a[1].dot(t[2]),
                   a[2].dot(t[0]), a[2].dot(t[1]), a[2].dot(t[2]));
}
}  // namespace tf2
#endif
