// Wheeled robot: symbolic model states and an independent simulation of its two point masses.
#pragma once
#include "vp_eigen.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/pepper_mpc.h"

namespace vp
{
    typedef humoto::pepper_mpc::ModelState PState;
    typedef humoto::pepper_mpc::Model PModel;
    typedef humoto::pepper_mpc::MotionParameters PMotion;
    inline const Real gravity() { return humoto::g_gravitational_acceleration; }
    inline MatX rotation2(const Real &t)
    {
        using std::cos; using std::sin;
        MatX r(2, 2); r << cos(t), -sin(t), sin(t), cos(t);
        return r;
    }
    // any state of the robot on its plane
    inline PState symState(const std::string &n)
    {
        PState s;
        s.base_mass_ = sym(n + "m_base", 1, 20); s.body_mass_ = sym(n + "m_body", 1, 20);
        requires_(land({gt(s.base_mass_, Real(0)), gt(s.body_mass_, Real(0))}));
        s.base_state_.position_ = symVec(n + "bp", 3); s.base_state_.velocity_ = symVec(n + "bv", 3); s.base_state_.acceleration_ = symVec(n + "ba", 3);
        s.body_state_.position_ = symVec(n + "dp", 3); s.body_state_.velocity_ = symVec(n + "dv", 3); s.body_state_.acceleration_ = symVec(n + "da", 3);
        s.base_state_.rpy_ = symVec(n + "rpy", 3, -1, 1);
        s.base_state_.angular_velocity_ = symVec(n + "av", 3); s.base_state_.angular_acceleration_ = symVec(n + "aa", 3);
        return s;
    }
    // one axis: position, velocity, acceleration
    struct Axis { Real p, v, a; };
    inline Axis driftJerk(const Axis &x, const Real &j, const Real &t)
    {
        return Axis{x.p + x.v * t + x.a * t * t / Real(2) + j * t * t * t / Real(6), x.v + x.a * t + j * t * t / Real(2), x.a + j * t};
    }
    // the constant jerk that brings the velocity to u after T
    inline Real jerkToVelocity(const Axis &x, const Real &u, const Real &T) { return (u - x.v - x.a * T) * Real(2) / (T * T); }
    inline Axis driveVelocity(const Axis &x, const Real &u, const Real &T, const Real &t) { return driftJerk(x, jerkToVelocity(x, u, T), t); }
    struct Robot { Axis base[2], body[2]; Real m_base, m_body, h_base, h_body, theta; };
    inline Robot robotOf(const PState &s)
    {
        Robot r;
        for (int a = 0; a < 2; ++a)
        {
            r.base[a] = Axis{s.base_state_.position_(a), s.base_state_.velocity_(a), s.base_state_.acceleration_(a)};
            r.body[a] = Axis{s.body_state_.position_(a), s.body_state_.velocity_(a), s.body_state_.acceleration_(a)};
        }
        r.m_base = s.base_mass_; r.m_body = s.body_mass_; r.h_base = s.base_state_.position_(2); r.h_body = s.body_state_.position_(2);
        r.theta = s.base_state_.rpy_(2);
        return r;
    }
    inline Robot advance(const Robot &r, const VecX &u_base, const VecX &u_body, const Real &T, const Real &t)
    {
        Robot n = r;
        for (int a = 0; a < 2; ++a) { n.base[a] = driveVelocity(r.base[a], u_base(a), T, t); n.body[a] = driftJerk(r.body[a], u_body(a), t); }
        return n;
    }
    // centre of pressure relative to the base: moment balance of the two masses about a point of the ground
    inline VecX copOf(const Robot &r)
    {
        VecX z(2);
        for (int a = 0; a < 2; ++a)
            z(a) = (r.m_base * (r.base[a].p - r.h_base / gravity() * r.base[a].a) + r.m_body * (r.body[a].p - r.h_body / gravity() * r.body[a].a)) / (r.m_base + r.m_body) - r.base[a].p;
        return z;
    }
    inline VecX vec6(const Axis *x) { VecX v(6); v << x[0].p, x[0].v, x[0].a, x[1].p, x[1].v, x[1].a; return v; }
    inline VecX vec12(const Robot &r) { VecX v(12); v << vec6(r.base), vec6(r.body); return v; }
    // the published state s is the state r of the robot
    inline Formula sameState(const PState &s, const Robot &r)
    {
        std::vector<Formula> f;
        for (int a = 0; a < 2; ++a)
        {
            f.push_back(eq(s.base_state_.position_(a), r.base[a].p)); f.push_back(eq(s.base_state_.velocity_(a), r.base[a].v)); f.push_back(eq(s.base_state_.acceleration_(a), r.base[a].a));
            f.push_back(eq(s.body_state_.position_(a), r.body[a].p)); f.push_back(eq(s.body_state_.velocity_(a), r.body[a].v)); f.push_back(eq(s.body_state_.acceleration_(a), r.body[a].a));
        }
        return land(f);
    }
    inline Formula sameParameters(const PState &s, const Robot &r)
    {
        return land({eq(s.base_state_.position_(2), r.h_base), eq(s.body_state_.position_(2), r.h_body), eq(s.base_mass_, r.m_base), eq(s.body_mass_, r.m_body)});
    }
    // any controller, model and constant motion; `unlimited` durations unless a test needs otherwise
    struct PScene
    {
        long N, S, sub;
        PState state;
        PModel model;
        PMotion motion;
        humoto::pepper_mpc::MPCforMG mpc;
        PScene(long lo, long hi)
        {
            N = size("horizon", lo, hi + 2, hi + 6);
            S = choose("sampling_ms", 1, 2) * 50; sub = 50;
            state = symState("");
            model.updateState(state);
            motion.base_velocity_ = symVec("vref", 2); motion.base_position_ = symVec("pref", 2); motion.base_angular_velocity_ = sym("w", -1, 1);
            mpc.setParameters(humoto::pepper_mpc::MPCParameters(N, S, sub));
        }
        Real T() const { return Real(S) / Real(1000); }
        humoto::Solution solution(const VecX &x) const
        {
            humoto::Solution s;
            s.initialize(mpc.getSolutionStructure(), 0.0);
            s.x_ = x;
            return s;
        }
    };
    // states of the robot after each interval
    inline std::vector<Robot> simulate(const PScene &s, const VecX &x)
    {
        std::vector<Robot> v;
        Robot r = robotOf(s.state);
        for (long k = 0; k < s.N; ++k)
        {
            r = advance(r, x.segment(2 * k, 2), x.segment(2 * (s.N + k), 2), s.T(), s.T());
            r.theta = r.theta + s.motion.base_angular_velocity_ * s.T();
            v.push_back(r);
        }
        return v;
    }
}
