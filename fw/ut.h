// Conversions between reference values and library values.
#pragma once
#include "ref.h"
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/Pose.h>
namespace ut {
using namespace Ubitrack;
typedef Math::Vector<double, 2> V2d; typedef Math::Vector<double, 3> V3d; typedef Math::Vector<double, 4> V4d;
inline V3d v(const ref::V3& a) { return V3d(double(a[0]), double(a[1]), double(a[2])); }
inline ref::V3 r(const V3d& a) { return ref::V3(a(0), a(1), a(2)); }
inline Math::Quaternion q(const ref::Q& a) { return Math::Quaternion(double(a.x), double(a.y), double(a.z), double(a.w)); }
inline ref::Q r(const Math::Quaternion& a) { return ref::Q(a.x(), a.y(), a.z(), a.w()); }
inline Math::Pose p(const ref::P& a) { return Math::Pose(q(a.q), v(a.t)); }
inline ref::P r(const Math::Pose& a) { return ref::P{r(a.rotation()), r(a.translation())}; }
template <class MM> ref::M rm(const MM& a) { ref::M m(int(a.size1()), int(a.size2())); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) m(i, j) = a(i, j); return m; }
template <class VV> ref::M rv(const VV& a) { ref::M m(int(a.size()), 1); for (int i = 0; i < m.r; ++i) m(i, 0) = a(i); return m; }
template <class MM> void set(MM& a, const ref::M& m) { for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) a(i, j) = typename MM::value_type(m(i, j)); }
inline Math::Matrix<double, 0, 0> dm(const ref::M& m) { Math::Matrix<double, 0, 0> a(m.r, m.c); set(a, m); return a; }
inline bool fin(double x) { return std::isfinite(x); }
}  // namespace ut
