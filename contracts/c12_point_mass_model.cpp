// PROPERTY C12
#include "vp_eigen.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
using namespace vp;
typedef humoto::walking::PointMassModel6z PM;

// exact linear inverted pendulum: c'' = w^2 (c - z(t)), z(t) = z0 + dz t; state (c, c', c'') after time t
static VecX pendulum(const VecX &x, const Real &dz, const Real &t, const Real &w)
{
    using std::cosh; using std::sinh;
    Real z0 = x(0) - x(2) / (w * w), al = x(0) - z0, be = (x(1) - dz) / w, ch = cosh(t * w), sh = sinh(t * w);
    VecX r(3);
    r(0) = z0 + dz * t + al * ch + be * sh;
    r(1) = dz + w * (al * sh + be * ch);
    r(2) = w * w * (al * ch + be * sh);
    return r;
}
static Real copOf(const VecX &x, const Real &w) { return x(0) - x(2) / (w * w); }

CONTRACT(single_axis, "PointMassModel6z::{getA3,getB3,getD3,getE3}")
{
    Real T = sym("T", 0.01, 2), t = sym("t", 0, 2), w = sym("omega", 0.5, 4);
    requires_(land({gt(T, Real(0)), gt(w, Real(0))}));
    VecX x = symVec("x", 3);
    Real u = sym("u");
    Real dz = (u - copOf(x, w)) / T;
    ensures("the state at any instant of the sampling interval", eqm(PM::getA3(t, w, T) * x + PM::getB3(t, w, T) * u, pendulum(x, dz, t, w)));
    VecX y = PM::getA3(T, w) * x + PM::getB3(T, w) * u;
    ensures("the state at the end of the interval", eqm(y, pendulum(x, dz, T, w)));
    ensures("the centre of pressure reaches the control", eq(copOf(y, w), u));
    MatX D = PM::getD3(T, w);
    ensures("the output is the velocity of the centre of pressure", eq((D * x)(0) + PM::getE3(T) * u, dz));
}
CONTRACT(both_axes, "PointMassModel6z::{getA6,getB6,getD6,getE6}")
{
    Real T = sym("T", 0.01, 2), t = sym("t", 0, 2), w = sym("omega", 0.5, 4);
    requires_(land({gt(T, Real(0)), gt(w, Real(0))}));
    VecX x = symVec("x", 6), u = symVec("u", 2), e(6), f(6), dz(2);
    for (long i = 0; i < 2; ++i)
    {
        dz(i) = (u(i) - copOf(x.segment(3 * i, 3), w)) / T;
        e.segment(3 * i, 3) = pendulum(x.segment(3 * i, 3), dz(i), t, w);
        f.segment(3 * i, 3) = pendulum(x.segment(3 * i, 3), dz(i), T, w);
    }
    ensures("the state at any instant of the sampling interval", eqm(PM::getA6(t, w, T) * x + PM::getB6(t, w, T) * u, e));
    ensures("the state at the end of the interval", eqm(PM::getA6(T, w) * x + PM::getB6(T, w) * u, f));
    ensures("the output is the velocity of the centre of pressure", eqm(PM::getD6(T, w) * x + PM::getE6(T, w) * u, dz));
}
CONTRACT(outputs, "PointMassModel6z::{getDdz6,getDcpv6,getOmega}")
{
    Real h = sym("height", 0.1, 2);
    requires_(gt(h, Real(0)));
    Real w = PM::getOmega(h);
    ensures("omega is the positive root of g/h", land({gt(w, Real(0)), eq(w * w * h, Real(humoto::g_gravitational_acceleration))}));
    VecX x = symVec("x", 6), z(2), cv(2);
    for (long i = 0; i < 2; ++i) { z(i) = x(3 * i) - x(3 * i + 2) * h / Real(humoto::g_gravitational_acceleration); }
    ensures("position of the centre of pressure", eqm(PM::getDdz6(h) * x, z));
    Real v = sym("omega", 0.5, 4);
    requires_(gt(v, Real(0)));
    for (long i = 0; i < 2; ++i) cv(i) = x(3 * i + 1) + x(3 * i + 2) / v;
    ensures("velocity of the capture point", eqm(PM::getDcpv6(v) * x, cv));
}
CONTRACT(conversions, "PointMassModel6z::convertCoMState")
{
    VecX v = symVec("x", 6);
    etools::Vector6 x = v;
    Real h = sym("height");
    humoto::rigidbody::PointMassState s = PM::convertCoMState(x, h);
    ensures("conversion and back", eqm(PM::convertCoMState(s), v));
    VecX p(3), d(3), a(3);
    p << x(0), x(3), h; d << x(1), x(4), Real(0); a << x(2), x(5), Real(0);
    ensures("meaning of the state", land({eqm(s.position_, p), eqm(s.velocity_, d), eqm(s.acceleration_, a)}));
    humoto::rigidbody::PointMassState g;
    etools::Vector3 gp = symVec("p", 3), gv = symVec("v", 3), ga = symVec("a", 3);
    g.set(gp, gv, ga);
    humoto::rigidbody::PointMassState b = PM::convertCoMState(PM::convertCoMState(g), gp(2));
    ensures("horizontal state survives", land({eqm(b.position_, gp), eqm(b.velocity_.head(2), gv.head(2)), eqm(b.acceleration_.head(2), ga.head(2)), eq(b.velocity_(2), Real(0)), eq(b.acceleration_(2), Real(0))}));
}
CONTRACT(evaluation, "PointMassModel6z::evaluate")
{
    Real T = sym("T", 0.01, 2), t = sym("t", 0, 2), h = sym("height", 0.1, 2);
    requires_(land({gt(T, Real(0)), gt(h, Real(0))}));
    VecX x = symVec("x", 6), u = symVec("u", 2);
    etools::Vector6 cx = x; etools::Vector2 cu = u;
    Real w = PM::getOmega(h);
    requires_(gt(w, Real(0)));
    humoto::rigidbody::PointMassState s = PM::evaluate(t, T, h, cx, cu);
    VecX e(6);
    for (long i = 0; i < 2; ++i) e.segment(3 * i, 3) = pendulum(x.segment(3 * i, 3), (u(i) - copOf(x.segment(3 * i, 3), w)) / T, t, w);
    ensures("horizontal motion", eqm(PM::convertCoMState(s), e));
    ensures("constant height", land({eq(s.position_(2), h), eq(s.velocity_(2), Real(0)), eq(s.acceleration_(2), Real(0))}));
}
CONTRACT(point_mass_state, "PointMassState::{set,translate,setDefaults}, RotaryState::{set,setDefaults}, RigidBodyState::{set,setDefaults}")
{
    etools::Vector3 p = symVec("p", 3), v = symVec("v", 3), a = symVec("a", 3), r = symVec("r", 3), w = symVec("w", 3), d = symVec("d", 3), t = symVec("t", 3);
    humoto::rigidbody::RigidBodyState s;
    ensures("starts at zero", land({eqm(s.position_, 0.0), eqm(s.velocity_, 0.0), eqm(s.acceleration_, 0.0), eqm(s.rpy_, 0.0), eqm(s.angular_velocity_, 0.0), eqm(s.angular_acceleration_, 0.0)}));
    s.set(p, r, v, w, a, d);
    ensures("set", land({eqm(s.position_, p), eqm(s.velocity_, v), eqm(s.acceleration_, a), eqm(s.rpy_, r), eqm(s.angular_velocity_, w), eqm(s.angular_acceleration_, d)}));
    s.translate(t);
    ensures("translation moves the position only", land({eqm(s.position_, p + t), eqm(s.velocity_, v), eqm(s.acceleration_, a), eqm(s.rpy_, r), eqm(s.angular_velocity_, w), eqm(s.angular_acceleration_, d)}));
    s.set(p, r);
    ensures("omitted arguments are zero", land({eqm(s.position_, p), eqm(s.velocity_, 0.0), eqm(s.acceleration_, 0.0), eqm(s.rpy_, r), eqm(s.angular_velocity_, 0.0), eqm(s.angular_acceleration_, 0.0)}));
    s.setDefaults();
    ensures("defaults are zero", land({eqm(s.position_, 0.0), eqm(s.rpy_, 0.0)}));
}
