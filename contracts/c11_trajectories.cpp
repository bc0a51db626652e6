// PROPERTY C11
#include "vp_eigen.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
using namespace vp;
typedef humoto::rigidbody::TrajectoryEvaluationType TT;

static const TT::Type KIND[] = {TT::POSITION, TT::VELOCITY, TT::ACCELERATION};

// p, v, a sampled at t and t+h belong to one cubic: v and a are the derivatives of p
template <class F> static Formula derivatives(F f, const Real &t, const Real &h)
{
    Real p0 = f(t, TT::POSITION), v0 = f(t, TT::VELOCITY), a0 = f(t, TT::ACCELERATION);
    Real p1 = f(t + h, TT::POSITION), v1 = f(t + h, TT::VELOCITY), a1 = f(t + h, TT::ACCELERATION);
    return land({eq(v1, v0 + h * (a0 + a1) / Real(2)), eq(p1, p0 + h * v0 + h * h * a0 / Real(2) + h * h * (a1 - a0) / Real(6))});
}

CONTRACT(cubic_boundary_conditions, "CubicPolynomial1D::{initialize,getPosition,getVelocity}")
{
    Real a = sym("a"), b = sym("b"), va = Real(0), vb = Real(0);
    humoto::rigidbody::CubicPolynomial1D c;
    if (choose("used_before", 0, 1)) c.initialize(sym("o0"), sym("o1"), sym("o2"), sym("o3"));
    if (choose("with_velocities", 0, 1)) { va = sym("va"); vb = sym("vb"); c.initialize(a, va, b, vb); }
    else c.initialize(a, b);
    ensures("starts at the initial position", eq(c.getPosition(Real(0)), a));
    ensures("ends at the final position", eq(c.getPosition(Real(1)), b));
    ensures("starts with the initial velocity", eq(c.getVelocity(Real(0)), va));
    ensures("ends with the final velocity", eq(c.getVelocity(Real(1)), vb));
}

CONTRACT(cubic_derivatives, "CubicPolynomial1D::{getPosition,getVelocity,getAcceleration,getJerk,eval}")
{
    humoto::rigidbody::CubicPolynomial1D c;
    if (choose("with_velocities", 0, 1)) c.initialize(sym("a"), sym("va"), sym("b"), sym("vb"));
    else c.initialize(sym("a"), sym("b"));
    Real t = sym("t", 0, 1), h = sym("h", -1, 1);
    requires_(land({ge(t, Real(0)), le(t, Real(1)), ge(t + h, Real(0)), le(t + h, Real(1))}));
    Real j = c.getJerk();
    ensures("velocity, acceleration and jerk are the derivatives of position (Taylor)", eq(c.getPosition(t + h), c.getPosition(t) + h * c.getVelocity(t) + h * h * c.getAcceleration(t) / Real(2) + h * h * h * j / Real(6)));
    ensures("acceleration and jerk are the derivatives of velocity (Taylor)", eq(c.getVelocity(t + h), c.getVelocity(t) + h * c.getAcceleration(t) + h * h * j / Real(2)));
    ensures("jerk is the derivative of acceleration", eq(c.getAcceleration(t + h), c.getAcceleration(t) + h * j));
    ensures("eval by type", land({eq(c.eval(t, TT::POSITION), c.getPosition(t)), eq(c.eval(t, TT::VELOCITY), c.getVelocity(t)), eq(c.eval(t, TT::ACCELERATION), c.getAcceleration(t))}));
    ensuresThrows("unsupported type is refused", [&]() { c.eval(t, TT::UNDEFINED); });
}

CONTRACT(cubic_domain, "CubicPolynomial1D::eval (checks)")
{
    humoto::rigidbody::CubicPolynomial1D c;
    c.initialize(sym("a"), sym("va"), sym("b"), sym("vb"));
    Real t = sym("t", -1, 2);
    requires_(lor({lt(t, Real(0)), gt(t, Real(1))}));
    TT::Type k = KIND[choose("kind", 0, 2)];
    ensuresThrows("times outside [0,1] are refused", [&]() { c.eval(t, k); });
}

CONTRACT(sampled_cubic, "CubicPolynomial1D::{eval(vector),scale}")
{
    humoto::rigidbody::CubicPolynomial1D c;
    c.initialize(sym("a"), sym("va"), sym("b"), sym("vb"));
    long n = size("samples", 0, 6, 9);
    VecX t = symVec("t", n, 0, 1);
    for (long i = 0; i < n; ++i) requires_(land({ge(t(i), Real(0)), le(t(i), Real(1))}));
    TT::Type k = KIND[choose("kind", 0, 2)];
    std::vector<Real> r = c.eval(t, k);
    ensures("one value per sample", (long)r.size() == n);
    for (long i = 0; i < n; ++i) ensures("value at each sample", eq(r[i], c.eval(t(i), k)));
}

CONTRACT(time_scaling, "CubicPolynomial1D::scale")
{
    long n = size("samples", 2, 3, 6);
    VecX t = symVec("t", n);
    long lo = choose("first", 0, n - 1), hi = choose("last", 0, n - 1);
    requires_(lo != hi);
    requires_(lt(t(lo), t(hi)));
    for (long i = 0; i < n; ++i) requires_(land({ge(t(i), t(lo)), le(t(i), t(hi))}));
    VecX s = humoto::rigidbody::CubicPolynomial1D::scale(t);
    ensures("as many samples", s.size() == n);
    for (long i = 0; i < n; ++i) ensures("samples are mapped linearly to [0,1]", eq(s(i) * (t(hi) - t(lo)), t(i) - t(lo)));
}

struct Foot
{
    humoto::walking::Simple3DFootTrajectory f;
    humoto::rigidbody::RigidBodyState a, b;
    Real h, yaw_va, yaw_vb;
    VecX pa, pb, va, vb;
    long mode;
};
static void makeFoot(Foot &o)
{
    o.pa = symVec("a", 3); o.pb = symVec("b", 3); o.va = VecX::Zero(3); o.vb = VecX::Zero(3);
    o.h = sym("step_height", 0, 1);
    o.mode = choose("initialisation", 0, 2);
    requires_(le(o.pb(2), o.pa(2) + o.h));
    if (o.mode > 0) { o.va = symVec("va", 3); o.vb = symVec("vb", 3); }
    etools::Vector3 pa = o.pa, pb = o.pb, va = o.va, vb = o.vb;
    if (o.mode == 0) o.f.initialize(pa, pb, o.h);
    else if (o.mode == 1) o.f.initialize(pa, va, pb, vb, o.h);
    else
    {
        etools::Vector3 z = etools::Vector3::Zero();
        etools::Vector3 ra = symVec("rpya", 3), rb = symVec("rpyb", 3), wa = symVec("wa", 3), wb = symVec("wb", 3);
        o.a.set(pa, ra, va, wa, z, z);
        o.b.set(pb, rb, vb, wb, z, z);
        o.f.initialize(o.a, o.b, o.h);
    }
}
CONTRACT(foot_boundary_conditions, "Simple3DFootTrajectory::{initialize,eval}")
{
    Foot o; makeFoot(o);
    ensures("starts at the initial position", eqm(o.f.eval(Real(0), TT::POSITION), o.pa));
    ensures("ends at the final position", eqm(o.f.eval(Real(1), TT::POSITION), o.pb));
    ensures("starts with the initial velocity", eqm(o.f.eval(Real(0), TT::VELOCITY), o.va));
    ensures("ends with the final velocity", eqm(o.f.eval(Real(1), TT::VELOCITY), o.vb));
    ensures("reaches the step height in the middle", eq(o.f.evalz(Real(0.5), TT::POSITION), o.pa(2) + o.h));
    ensures("turns in the middle", eq(o.f.evalz(Real(0.5), TT::VELOCITY), Real(0)));
    if (o.mode == 2)
    {
        ensures("yaw starts at the initial yaw", land({eq(o.f.evalTheta(Real(0), TT::POSITION), o.a.rpy_(2)), eq(o.f.evalTheta(Real(0), TT::VELOCITY), o.a.angular_velocity_(2))}));
        ensures("yaw ends at the final yaw", land({eq(o.f.evalTheta(Real(1), TT::POSITION), o.b.rpy_(2)), eq(o.f.evalTheta(Real(1), TT::VELOCITY), o.b.angular_velocity_(2))}));
    }
}
CONTRACT(foot_derivatives, "Simple3DFootTrajectory::{evalx,evaly,evalz,evalTheta}")
{
    Foot o; makeFoot(o);
    Real t = sym("t", 0, 1), h = sym("h", -1, 1);
    requires_(land({ge(t, Real(0)), le(t, Real(1)), ge(t + h, Real(0)), le(t + h, Real(1))}));
    requires_(lor({land({le(t, Real(0.5)), le(t + h, Real(0.5))}), land({gt(t, Real(0.5)), gt(t + h, Real(0.5))})}));
    auto x = [&](const Real &s, TT::Type k) { return o.f.evalx(s, k); };
    auto y = [&](const Real &s, TT::Type k) { return o.f.evaly(s, k); };
    auto z = [&](const Real &s, TT::Type k) { return o.f.evalz(s, k); };
    auto th = [&](const Real &s, TT::Type k) { return o.f.evalTheta(s, k); };
    ensures("x: velocity and acceleration are time derivatives", derivatives(x, t, h));
    ensures("y: velocity and acceleration are time derivatives", derivatives(y, t, h));
    ensures("z: velocity and acceleration are time derivatives", derivatives(z, t, h));
    ensures("yaw: velocity and acceleration are time derivatives", derivatives(th, t, h));
}
CONTRACT(foot_continuity, "Simple3DFootTrajectory::evalz (join of the two halves)")
{
    // the second half, continued to the middle, starts where the first one ends
    Foot o; makeFoot(o);
    Real t = sym("t", 0, 1), m = Real(0.5);
    requires_(land({gt(t, m), le(t, Real(1))}));
    Real h = m - t, t2 = (t + Real(1)) / Real(2);
    requires_(gt(t2, t));
    Real a0 = o.f.evalz(t, TT::ACCELERATION), j = (o.f.evalz(t2, TT::ACCELERATION) - a0) / (t2 - t);
    Real v0 = o.f.evalz(t, TT::VELOCITY), p0 = o.f.evalz(t, TT::POSITION);
    ensures("position is continuous", eq(p0 + h * v0 + h * h * a0 / Real(2) + h * h * h * j / Real(6), o.f.evalz(m, TT::POSITION)));
    ensures("velocity is continuous", eq(v0 + h * a0 + h * h * j / Real(2), o.f.evalz(m, TT::VELOCITY)));
}
CONTRACT(foot_state, "Simple3DFootTrajectory::eval(state), eval(time, type)")
{
    Foot o; makeFoot(o);
    Real t = sym("t", 0, 1);
    requires_(land({ge(t, Real(0)), le(t, Real(1))}));
    humoto::rigidbody::RigidBodyState s;
    etools::Vector3 r = symVec("r", 3), w = symVec("w", 3), dw = symVec("dw", 3);
    s.rpy_ = r; s.angular_velocity_ = w; s.angular_acceleration_ = dw;
    o.f.eval(s, t);
    for (long k = 0; k < 3; ++k)
    {
        etools::Vector3 v = o.f.eval(t, KIND[k]);
        ensures("axes", land({eq(v(0), o.f.evalx(t, KIND[k])), eq(v(1), o.f.evaly(t, KIND[k])), eq(v(2), o.f.evalz(t, KIND[k]))}));
    }
    ensures("linear motion of the foot", land({eqm(s.position_, o.f.eval(t, TT::POSITION)), eqm(s.velocity_, o.f.eval(t, TT::VELOCITY)), eqm(s.acceleration_, o.f.eval(t, TT::ACCELERATION))}));
    ensures("yaw of the foot", land({eq(s.rpy_(2), o.f.evalTheta(t, TT::POSITION)), eq(s.angular_velocity_(2), o.f.evalTheta(t, TT::VELOCITY)), eq(s.angular_acceleration_(2), o.f.evalTheta(t, TT::ACCELERATION))}));
    ensures("roll and pitch are left alone", land({eq(s.rpy_(0), r(0)), eq(s.rpy_(1), r(1)), eq(s.angular_velocity_(0), w(0)), eq(s.angular_velocity_(1), w(1)), eq(s.angular_acceleration_(0), dw(0)), eq(s.angular_acceleration_(1), dw(1))}));
}
CONTRACT(foot_checks, "Simple3DFootTrajectory::{initialize,eval} (checks)")
{
    etools::Vector3 a = symVec("a", 3), b = symVec("b", 3), v = symVec("v", 3);
    Real h = sym("step_height");
    humoto::walking::Simple3DFootTrajectory f;
    if (choose("what", 0, 1))
    {
        requires_(gt(b(2), a(2) + h));
        ensuresThrows("final position above the step height is refused", [&]() { f.initialize(a, b, h); });
        ensuresThrows("final position above the step height is refused (velocities)", [&]() { f.initialize(a, v, b, v, h); });
    }
    else
    {
        requires_(le(b(2), a(2) + h));
        f.initialize(a, b, h);
        Real t = sym("t", -1, 2);
        requires_(lor({lt(t, Real(0)), gt(t, Real(1))}));
        ensuresThrows("times outside [0,1] are refused", [&]() { f.eval(t, KIND[choose("kind", 0, 2)]); });
    }
}
