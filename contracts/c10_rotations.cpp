// PROPERTY C10
#include "vp_eigen.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
using namespace vp;
namespace rb = humoto::rigidbody;
typedef rb::EulerAngles EA;
static const EA::Type TYPES[] = {EA::RPY, EA::YPR};

static MatX elementary(long axis, const Real &s, const Real &c)
{
    MatX m(3, 3); m.setZero();
    long i = (axis + 1) % 3, j = (axis + 2) % 3;
    m(axis, axis) = Real(1); m(i, i) = c; m(j, j) = c; m(i, j) = -s; m(j, i) = s;
    return m;
}
// the documented order: RPY = Rz(yaw) Ry(pitch) Rx(roll), YPR = Rx(roll) Ry(pitch) Rz(yaw); angles ordered roll, pitch, yaw
static MatX rotation(const VecX &e, EA::Type t)
{
    using std::sin; using std::cos;
    MatX x = elementary(0, sin(e(0)), cos(e(0))), y = elementary(1, sin(e(1)), cos(e(1))), z = elementary(2, sin(e(2)), cos(e(2)));
    if (t == EA::RPY) return z * y * x;
    return x * y * z;
}
static MatX identity3() { MatX m(3, 3); m.setIdentity(); return m; }
static MatX skew(const VecX &v) { MatX m(3, 3); m << Real(0), -v(2), v(1), v(2), Real(0), -v(0), -v(1), v(0), Real(0); return m; }
// a rotation: R = product of elementary rotations, every rotation has this form
static MatX anyRotation(const std::string &n) { VecX e = symVec(n, 3); return rotation(e, EA::RPY); }

CONTRACT(euler_to_matrix, "convertEulerAnglesToMatrix, RotaryState::{getOrientationMatrix,set,setDefaults}")
{
    EA::Type t = TYPES[choose("type", 0, 1)];
    VecX h = symVec("half", 3);
    etools::Vector3 e = Real(2) * h;
    MatX r = rb::convertEulerAnglesToMatrix(e, t);
    ensures("product of the elementary rotations in the documented order", eqm(r, rotation(e, t)));
    ensures("orthonormal", eqm(r * r.transpose(), identity3()));
    MatX m3 = r;
    Real det = m3(0, 0) * (m3(1, 1) * m3(2, 2) - m3(1, 2) * m3(2, 1)) - m3(0, 1) * (m3(1, 0) * m3(2, 2) - m3(1, 2) * m3(2, 0)) + m3(0, 2) * (m3(1, 0) * m3(2, 1) - m3(1, 1) * m3(2, 0));
    ensures("determinant 1", eq(det, Real(1)));
    etools::Vector3 w = symVec("w", 3), a = symVec("a", 3);
    rb::RotaryState s;
    s.set(e, w, a);
    ensures("orientation of a rotary state", eqm(s.getOrientationMatrix(), rotation(e, EA::RPY)));
    ensures("stored velocity and acceleration", land({eqm(s.angular_velocity_, w), eqm(s.angular_acceleration_, a), eqm(s.rpy_, e)}));
    s.set(e);
    ensures("velocity and acceleration default to zero", land({eqm(s.angular_velocity_, 0.0), eqm(s.angular_acceleration_, 0.0), eqm(s.rpy_, e)}));
    s.setDefaults();
    ensures("default is the identity", eqm(s.getOrientationMatrix(), identity3()));
}
CONTRACT(euler_from_matrix, "convertMatrixToEulerAngles")
{
    EA::Type t = TYPES[choose("type", 0, 1)];
    VecX e = symVec("e", 3, -4, 4);
    long lock = choose("gimbal_lock", -1, 1);
    MatX r;
    if (lock == 0) { requires_(ne(std::cos(e(1)), Real(0))); r = rotation(e, t); }
    else
    {
        using std::sin; using std::cos;
        MatX x = elementary(0, sin(e(0)), cos(e(0))), y = elementary(1, Real((double)lock), Real(0)), z = elementary(2, sin(e(2)), cos(e(2)));
        r = t == EA::RPY ? MatX(z * y * x) : MatX(x * y * z);
    }
    etools::Matrix3 m = r;
    etools::Vector3 back = rb::convertMatrixToEulerAngles(m, t);
    ensures("the angles describe the same rotation", eqm(rotation(back, t), r));
}
CONTRACT(euler_conversion, "convertEulerAngles")
{
    EA::Type t = TYPES[choose("type", 0, 1)];
    VecX h = symVec("half", 3);
    etools::Vector3 e = Real(2) * h;
    requires_(ne(std::cos(e(1)), Real(0)));
    VecX r = rb::convertEulerAngles(e, t, t);
    ensures("the same rotation", eqm(rotation(r, t), rotation(e, t)));
}
// against the contracts of its two callees, which are proved above for all angles and rotations
CONTRACT(euler_conversion_between_types, "convertEulerAngles")
{
    OpaqueMath opaque;
    EA::Type from = TYPES[choose("from", 0, 1)], to = TYPES[choose("to", 0, 1)];
    etools::Vector3 e = symVec("e", 3);
    etools::Vector3 r = rb::convertEulerAngles(e, from, to);
    etools::Matrix3 m = rb::convertEulerAnglesToMatrix(e, from);
    ensures("converts through the rotation itself", eqm(r, rb::convertMatrixToEulerAngles(m, to)));
}
CONTRACT(unsupported_types, "convertMatrixToEulerAngles, convertEulerAnglesToMatrix, convertEulerAngles, getEulerRatesToAngularVelocityTransform (unsupported types)")
{
    etools::Vector3 e = symVec("e", 3);
    etools::Matrix3 m = symMat("m", 3, 3);
    ensuresThrows("undefined type is refused (to matrix)", [&]() { rb::convertEulerAnglesToMatrix(e, EA::UNDEFINED); });
    ensuresThrows("undefined type is refused (from matrix)", [&]() { rb::convertMatrixToEulerAngles(m, EA::UNDEFINED); });
    ensuresThrows("undefined type is refused (conversion, from)", [&]() { rb::convertEulerAngles(e, EA::UNDEFINED, EA::RPY); });
    ensuresThrows("undefined type is refused (rates)", [&]() { rb::getEulerRatesToAngularVelocityTransform(e, EA::UNDEFINED); });
    ensuresThrows("a type without a rate transformation is refused", [&]() { rb::getEulerRatesToAngularVelocityTransform(e, EA::YPR); });
}
CONTRACT(euler_rates, "getEulerRatesToAngularVelocityTransform")
{
    using std::sin; using std::cos;
    VecX e0 = symVec("e", 3), de = symVec("de", 3);
    etools::Vector3 e = e0;
    VecX w = rb::getEulerRatesToAngularVelocityTransform(e, EA::RPY) * de;
    // time derivative of R = Rz Ry Rx by the product rule
    Real s0 = sin(e(0)), c0 = cos(e(0)), s1 = sin(e(1)), c1 = cos(e(1)), s2 = sin(e(2)), c2 = cos(e(2));
    MatX X = elementary(0, s0, c0), Y = elementary(1, s1, c1), Z = elementary(2, s2, c2);
    MatX dX = elementary(0, c0 * de(0), -s0 * de(0)), dY = elementary(1, c1 * de(1), -s1 * de(1)), dZ = elementary(2, c2 * de(2), -s2 * de(2));
    dX(0, 0) = Real(0); dY(1, 1) = Real(0); dZ(2, 2) = Real(0);
    MatX dR = dZ * Y * X + Z * dY * X + Z * Y * dX, R = Z * Y * X;
    ensures("the velocity of the rotation: dR/dt R' = [w]x", eqm(dR * R.transpose(), skew(w)));
}
CONTRACT(integrate_simple, "integrateAngularVelocity")
{
    etools::Matrix3 r = symMat("R", 3, 3);
    etools::Vector3 w = symVec("w", 3);
    Real dt = sym("dt", 0, 1);
    ensures("first order step", eqm(rb::integrateAngularVelocity(r, w, dt), r + dt * r * skew(w)));
}
CONTRACT(integrate_exact, "integrateAngularVelocityRodrigues")
{
    using std::sin; using std::cos;
    etools::Matrix3 r = anyRotation("e");
    etools::Vector3 w = symVec("w", 3);
    Real dt = sym("dt", -1, 1), tol = sym("tol", 0, 1);
    bool with_default = choose("default_tolerance", 0, 1);
    if (with_default) tol = Real(1e-12); else requires_(gt(tol, Real(0)));
    MatX n = with_default ? rb::integrateAngularVelocityRodrigues(r, w, dt) : rb::integrateAngularVelocityRodrigues(r, w, dt, tol);
    Real v2 = w.squaredNorm(), v = std::sqrt(v2);
    if (holds(lt(v, tol))) { ensures("no motion below the tolerance", eqm(n, r)); return; }
    requires_(gt(v2, Real(0)));
    MatX k = skew(VecX(w)) / v;
    ensures("Rodrigues formula", eqm(n, r * (identity3() + sin(v * dt) * k + (Real(1) - cos(v * dt)) * k * k)));
    ensures("a rotation stays a rotation", eqm(n * n.transpose(), identity3()));
    ensures("the axis of rotation does not move", eqm(n * w, r * w));
    Real tr = Real(0); MatX d = r.transpose() * n; for (long i = 0; i < 3; ++i) tr = tr + d(i, i);
    ensures("rotates by |w| dt", eq(tr, Real(1) + Real(2) * cos(v * dt)));
}
CONTRACT(rotation_error, "getRotationError, getRotationErrorAngleAxis")
{
    etools::Matrix3 cur = symMat("cur", 3, 3), ref = symMat("ref", 3, 3);
    MatX e = ref * cur.transpose();
    ensures("reference times current inverse", eqm(rb::getRotationError(cur, ref), e));
    VecX v(3); v << e(2, 1) - e(1, 2), e(0, 2) - e(2, 0), e(1, 0) - e(0, 1);
    ensures("sine of the angle times the axis of the error", eqm(rb::getRotationErrorAngleAxis(cur, ref), v / Real(2)));
}
CONTRACT(rotation_error_of_a_rotation, "getRotationErrorAngleAxis, getRotationError, integrateAngularVelocityRodrigues")
{
    etools::Matrix3 cur = anyRotation("e");
    Real a = sym("angle");
    VecX ax(3); ax.setZero(); long i = choose("axis", 0, 2); ax(i) = Real(1);
    etools::Matrix3 ref = elementary(i, std::sin(a), std::cos(a)) * cur;
    ensures("error of a rotation by an angle about a coordinate axis", eqm(rb::getRotationErrorAngleAxis(cur, ref), std::sin(a) * ax));
    ensures("error times current is the reference", eqm(rb::getRotationError(cur, ref) * cur, ref));
    ensures("no error between equal orientations", land({eqm(rb::getRotationErrorAngleAxis(cur, cur), 0.0), eqm(rb::getRotationError(cur, cur), identity3())}));
}
CONTRACT(cross_product_matrix, "CrossProductMatrix::{eval,multiplyLeft,multiplyRight}, operator*")
{
    etools::Vector3 a = symVec("a", 3), b = symVec("b", 3);
    etools::CrossProductMatrix m(a);
    ensures("matrix of the vector", land({eqm(m.eval(), skew(VecX(a))), eqm(etools::CrossProductMatrix::eval(a), skew(VecX(a)))}));
    VecX c(3); c << a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0);
    ensures("product with a vector is the cross product", eqm(m * b, c));
    long n = size("rows", 1, 5, 7);
    etools::Matrix3 s = symMat("s", 3, 3);
    ensures("left product", eqm(s * m, s * skew(VecX(a))));
    MatX x = symMat("x", n, 3);
    ensures("left product (any height)", eqm(x * m, x * skew(VecX(a))));
}
