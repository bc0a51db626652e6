// PROPERTY C22
#include "pepper_common.h"
using namespace vp;
using namespace humoto::pepper_mpc;

CONTRACT(centre_of_pressure, "TwoPointMassModel::{getDps3,getDpd3}, Model::{getCoP,getMPCBaseState,getMPCBodyState}")
{
    PState s = symState("");
    Robot r = robotOf(s);
    PModel m;
    m.updateState(s);
    ensures("centre of pressure of the model's state", eqm(m.getCoP(), copOf(r)));
    PState s2 = symState("other_");
    ensures("centre of pressure of a given state", eqm(m.getCoP(s2), copOf(robotOf(s2))));
    VecX base = vec6(r.base), body = vec6(r.body);
    MatX Ds = m.getDps3(r.h_base, r.m_base, r.m_body), Dd = m.getDpd3(r.h_body, r.m_base, r.m_body);
    VecX z(2);
    for (int a = 0; a < 2; ++a) z(a) = (Ds * base.segment(3 * a, 3))(0) + (Dd * body.segment(3 * a, 3))(0);
    ensures("output matrices", eqm(z, copOf(r)));
}
CONTRACT(dynamics, "TwoPointMassModel::{evaluate,getA12,getB12}")
{
    PModel m;
    PState s = symState("");
    Robot r = robotOf(s);
    VecX ub = symVec("u_base", 2), ud = symVec("u_body", 2);
    Real T = sym("T", 0.01, 1), t = sym("t", 0, 1);
    requires_(gt(T, Real(0)));
    bool end = choose("whole_interval", 0, 1);
    if (end) t = T;
    Robot n = advance(r, ub, ud, T, t);
    VecX x = vec12(r);
    ensures("state after a part of the sampling interval", eqm(m.evaluate(T, t, EIGENTOOLS_CONSTANT_SIZE_VECTOR(12)(x), etools::Vector2(ub), etools::Vector2(ud)), vec12(n)));
    VecX u(4); u << ub, ud;
    ensures("matrices", eqm(m.getA12(T, t) * x + m.getB12(T, t) * u, vec12(n)));
    if (end) for (int a = 0; a < 2; ++a) ensures("the base reaches the commanded velocity", eq(m.evaluate(T, t, EIGENTOOLS_CONSTANT_SIZE_VECTOR(12)(x), etools::Vector2(ub), etools::Vector2(ud))(3 * a + 1), ub(a)));
}
CONTRACT(single_axis, "TwoPointMassModel::{getAs3,getBs3,getAd3,getBd3,getDjs3,getEjs3,getDj6,getEjs6}")
{
    PModel m;
    Real T = sym("T", 0.01, 1), u = sym("u"), j = sym("j");
    requires_(gt(T, Real(0)));
    VecX x = symVec("x", 3);
    Axis a{x(0), x(1), x(2)}, e = driveVelocity(a, u, T, T), f = driftJerk(a, j, T);
    VecX ev(3), fv(3); ev << e.p, e.v, e.a; fv << f.p, f.v, f.a;
    ensures("base", eqm(m.getAs3(T) * x + m.getBs3(T) * u, ev));
    ensures("body", eqm(m.getAd3(T) * x + m.getBd3(T) * j, fv));
    ensures("jerk of the base", eq((m.getDjs3(T) * x)(0) + m.getEjs3(T) * u, jerkToVelocity(a, u, T)));
    VecX y = symVec("y", 3), x6(6), u2 = symVec("u2", 2), j2(2);
    x6 << x, y;
    Axis b{y(0), y(1), y(2)};
    j2 << jerkToVelocity(a, u2(0), T), jerkToVelocity(b, u2(1), T);
    ensures("jerk of both axes", eqm(m.getDj6(T) * x6 + m.getEjs6(T) * u2, j2));
}
CONTRACT(conversions, "TwoPointMassModel::convert*, Model::{getMPCState,getBodyState,getBaseState,...}")
{
    PState s = symState("");
    PModel m;
    m.updateState(s);
    Robot r = robotOf(s);
    ensures("state vector", eqm(m.getMPCState(), vec12(r)));
    ensures("state of the base", land({eqm(m.getMPCBaseState(), vec6(r.base)), eqm(m.convertBaseStateRBtoMPC(s.base_state_), vec6(r.base))}));
    ensures("state of the body", land({eqm(m.getMPCBodyState(), vec6(r.body)), eqm(m.convertBodyStateRBtoMPC(s.body_state_), vec6(r.body))}));
    ensures("state vector of given states", eqm(m.convertStateRBtoMPC(s.base_state_, s.body_state_), vec12(r)));
    EIGENTOOLS_CONSTANT_SIZE_VECTOR(12) x = VecX(vec12(r));
    PState back;
    back.base_state_ = m.convertBaseStateMPCtoRB(x, r.h_base);
    back.body_state_ = m.convertBodyStateMPCtoRB(x, r.h_body);
    ensures("converted back", land({sameState(back, r), eq(back.base_state_.position_(2), r.h_base), eq(back.body_state_.position_(2), r.h_body)}));
    ensures("no vertical motion", land({eq(back.base_state_.velocity_(2), Real(0)), eq(back.base_state_.acceleration_(2), Real(0)), eq(back.body_state_.velocity_(2), Real(0)), eq(back.body_state_.acceleration_(2), Real(0))}));
    ensures("heights and masses", land({eq(m.getBaseHeight(), r.h_base), eq(m.getBodyHeight(), r.h_body), eq(m.getBaseMass(), r.m_base), eq(m.getBodyMass(), r.m_body)}));
    ensures("orientation", land({eq(m.getTheta(), r.theta), eq(m.getBaseOrientation(), r.theta), eq(m.getTheta(s), r.theta)}));
    ensures("rigid body states", land({eqm(m.getBaseState().position_, s.base_state_.position_), eqm(m.getBaseState().velocity_, s.base_state_.velocity_), eqm(m.getBaseState().rpy_, s.base_state_.rpy_), eqm(m.getBodyState().position_, s.body_state_.position_), eqm(m.getBodyState().acceleration_, s.body_state_.acceleration_)}));
}
CONTRACT(next_state, "Model::{getNextState,updateState,setParameters}")
{
    PState s = symState(""), s2 = symState("other_");
    RobotParameters rp;
    rp.base_radius_ = sym("radius", 0, 1); rp.max_nominal_base_velocity_ = sym("nominal_velocity", 0, 1);
    rp.finalize();
    const bool constructed = choose("constructed_with_parameters", 0, 1);
    PModel m = constructed ? PModel(rp) : PModel();
    if (!constructed) m.setParameters(rp);
    ensures("a new model holds a default state", land({sameState(m.state_, robotOf(PState())), eqm(m.current_base_position_, PState().base_state_.position_.head(2))}));
    m.updateState(s);
    ensures("position of the base in the model", eqm(m.current_base_position_, s.base_state_.position_.head(2)));
    VecX ub = symVec("u_base", 2), ud = symVec("u_body", 2);
    Real T = sym("T", 0.01, 1), t = sym("t", 0, 1), theta = sym("theta", -1, 1), hs = sym("h_base", 0, 1), hd = sym("h_body", 0, 1);
    requires_(gt(T, Real(0)));
    if (choose("whole_interval", 0, 1)) t = T;
    bool other = choose("from_a_given_state", 0, 1);
    Robot n = advance(robotOf(other ? s2 : s), ub, ud, T, t);
    PState out = s2;
    if (other) m.getNextState(out, T, t, EIGENTOOLS_CONSTANT_SIZE_VECTOR(12)(VecX(vec12(robotOf(s2)))), etools::Vector2(ub), etools::Vector2(ud), hs, hd, theta);
    else m.getNextState(out, T, t, etools::Vector2(ub), etools::Vector2(ud), hs, hd, theta);
    ensures("state after the motion", sameState(out, n));
    ensures("heights", land({eq(out.base_state_.position_(2), hs), eq(out.body_state_.position_(2), hd)}));
    ensures("orientation", eq(out.base_state_.rpy_(2), theta));
    ensures("masses", land({eq(out.base_mass_, s2.base_mass_), eq(out.body_mass_, s2.body_mass_)}));
    ensures("the model itself is not changed", land({sameState(m.state_, robotOf(s)), sameParameters(m.state_, robotOf(s)), eq(m.getTheta(), s.base_state_.rpy_(2))}));
    m.updateState(out);
    ensures("the new state of the model", land({sameState(m.state_, n), sameParameters(m.state_, robotOf(out)), eq(m.getTheta(), theta), eqm(m.current_base_position_, out.base_state_.position_.head(2))}));
    ensures("parameters are kept", land({eq(m.robot_parameters_.base_radius_, rp.base_radius_), eqm(m.robot_parameters_.getCoPBounds(), rp.getCoPBounds()), eqm(m.robot_parameters_.getNominalBaseVelocityBounds(), rp.getNominalBaseVelocityBounds())}));
}
CONTRACT(states, "pepper_mpc::ModelState::{ModelState,set,update,setDefaults}")
{
    Real hs = sym("h_base", 0, 1), hd = sym("h_body", 0, 1), off = sym("offset"), ms = sym("m_base", 1, 9), md = sym("m_body", 1, 9), th = sym("theta", -1, 1);
    etools::Vector3 ps = symVec("ps", 3), pd = symVec("pd", 3), zero = etools::Vector3::Zero();
    PState a(hs, hd, off);
    ensures("constructed from heights", land({eq(a.base_state_.position_(2), hs), eq(a.body_state_.position_(2), hd), eq(a.body_state_.position_(0), off), eq(a.base_state_.position_(0), Real(0)), eq(a.base_state_.position_(1), Real(0)), eq(a.body_state_.position_(1), Real(0)), eq(a.base_state_.rpy_(2), Real(0))}));
    PState d;
    ensures("masses of a state constructed from heights", land({eq(a.base_mass_, d.base_mass_), eq(a.body_mass_, d.body_mass_)}));
    ensures("the body is above the base by default", d.body_state_.position_(2) > d.base_state_.position_(2));
    PState b(ms, md, ps, pd);
    Formula atRest = land({eqm(b.base_state_.velocity_, zero), eqm(b.base_state_.acceleration_, zero), eqm(b.body_state_.velocity_, zero), eqm(b.body_state_.acceleration_, zero), eqm(b.base_state_.rpy_, zero)});
    ensures("constructed from positions", land({eq(b.base_mass_, ms), eq(b.body_mass_, md), eqm(b.base_state_.position_, ps), eqm(b.body_state_.position_, pd), atRest}));
    PState c = symState("s_"), c0 = c;
    c.update(ms, md, ps, pd, th);
    ensures("updated", land({eq(c.base_mass_, ms), eq(c.body_mass_, md), eqm(c.base_state_.position_, ps), eqm(c.body_state_.position_, pd), eq(c.base_state_.rpy_(2), th)}));
    ensures("an update keeps the velocities", land({eqm(c.base_state_.velocity_, c0.base_state_.velocity_), eqm(c.base_state_.acceleration_, c0.base_state_.acceleration_), eqm(c.body_state_.velocity_, c0.body_state_.velocity_), eqm(c.body_state_.acceleration_, c0.body_state_.acceleration_)}));
    PState e = symState("t_"), e0 = e;
    e.set(c0.base_state_, c0.body_state_);
    ensures("set from states", land({sameState(e, robotOf(c0)), eqm(e.base_state_.position_, c0.base_state_.position_), eqm(e.body_state_.position_, c0.body_state_.position_), eqm(e.base_state_.rpy_, c0.base_state_.rpy_), eq(e.base_mass_, e0.base_mass_), eq(e.body_mass_, e0.body_mass_)}));
    PState f = symState("u_");
    f.set(ms, md, ps, pd);
    ensures("set from positions", land({eq(f.base_mass_, ms), eq(f.body_mass_, md), eqm(f.base_state_.position_, ps), eqm(f.body_state_.position_, pd), eqm(f.base_state_.velocity_, zero), eqm(f.base_state_.acceleration_, zero), eqm(f.body_state_.velocity_, zero), eqm(f.body_state_.acceleration_, zero), eqm(f.base_state_.rpy_, zero)}));
}
// the square inscribed in a circle of radius r (the code rounds its constant 2/sqrt(2) to double: corners within 1e-12 r^2)
static Formula square(const etools::Matrix2 &b, const Real &r)
{
    return land({eq(b(0, 0), Real(0) - b(0, 1)), eq(b(1, 0), Real(0) - b(1, 1)), eq(b(0, 1), b(1, 1)), ge(b(0, 1), Real(0)), le(Real(2) * b(0, 1) * b(0, 1) - r * r, Real(1e-12) * r * r), le(r * r - Real(2) * b(0, 1) * b(0, 1), Real(1e-12) * r * r)});
}
VP_OPTIONAL_MEMBER(base_velocity_bounds_)
VP_OPTIONAL_MEMBER(base_acceleration_bounds_)
CONTRACT(robot_bounds, "RobotParameters::{finalize,get*Bounds}")
{
    RobotParameters p;
    p.base_radius_ = sym("radius", 0, 1); p.max_nominal_base_velocity_ = sym("nominal_velocity", 0, 1); p.max_nominal_base_acceleration_ = sym("nominal_acceleration", 0, 1);
    p.max_base_velocity_ = sym("velocity", 0, 1); p.max_base_acceleration_ = sym("acceleration", 0, 1);
    requires_(land({ge(p.base_radius_, Real(0)), ge(p.max_nominal_base_velocity_, Real(0)), ge(p.max_nominal_base_acceleration_, Real(0)), ge(p.max_base_velocity_, Real(0)), ge(p.max_base_acceleration_, Real(0))}));
    MatX body = symMat("body", 2, 2);
    p.body_bounds_ = body;
    p.finalize();
    ensures("centre of pressure", square(p.getCoPBounds(), p.base_radius_));
    ensures("nominal velocity", square(p.getNominalBaseVelocityBounds(), p.max_nominal_base_velocity_));
    ensures("nominal acceleration", square(p.getNominalBaseAccelerationBounds(), p.max_nominal_base_acceleration_));
    with_base_velocity_bounds_(p, [&](auto &m) { ensures("velocity", square(m, p.max_base_velocity_)); }, 0);
    with_base_acceleration_bounds_(p, [&](auto &m) { ensures("acceleration", square(m, p.max_base_acceleration_)); }, 0);
    ensures("body", eqm(p.getBodyBounds(), body));
}
