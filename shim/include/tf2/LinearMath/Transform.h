#ifndef SHIM_TF2_TRANSFORM_H
#define SHIM_TF2_TRANSFORM_H
#include <tf2/LinearMath/Matrix3x3.h>
namespace tf2
{
class Transform
{
public:
  Transform() {}
  explicit Transform(const Quaternion& q, const Vector3& c = Vector3(0, 0, 0)) : b_(q), o_(c) {}
  explicit Transform(const Matrix3x3& b, const Vector3& c = Vector3(0, 0, 0)) : b_(b), o_(c) {}
  void mult(const Transform& a, const Transform& b) { *this = a * b; }
  Vector3 operator()(const Vector3& x) const { return b_ * x + o_; }
  Vector3 operator*(const Vector3& x) const { return (*this)(x); }
  Quaternion operator*(const Quaternion& q) const { return getRotation() * q; }
  Transform operator*(const Transform& t) const { return Transform(b_ * t.b_, (*this)(t.o_)); }
  Transform& operator*=(const Transform& t) { return *this = *this * t; }
  Matrix3x3& getBasis() { return b_; }
  const Matrix3x3& getBasis() const { return b_; }
  Vector3& getOrigin() { return o_; }
  const Vector3& getOrigin() const { return o_; }
  Quaternion getRotation() const
  {
    Quaternion q;
    b_.getRotation(q);
    return q;
  }
  void setOrigin(const Vector3& o) { o_ = o; }
  void setBasis(const Matrix3x3& b) { b_ = b; }
  void setRotation(const Quaternion& q) { b_.setRotation(q); }
  void setIdentity()
  {
    b_.setIdentity();
    o_.setValue(0, 0, 0);
  }
  Transform inverse() const
  {
    const Matrix3x3 inv = b_.transpose();
    return Transform(inv, inv * -o_);
  }
  Transform inverseTimes(const Transform& t) const { return inverse() * t; }
  static const Transform& getIdentity()
  {
    static const Transform t(Matrix3x3::getIdentity());
    return t;
  }

private:
  Matrix3x3 b_;
  Vector3 o_;
};
}  // namespace tf2
#endif
