// Walking scenes: a stance machine in any phase of a walk, a symbolic model state and symbolic walk parameters, together with
// the plan they imply (the specification: derived from the stance machine alone, independently of the preview).
#pragma once
#include "vp_eigen.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"

namespace vp
{
    typedef humoto::walking::StanceType ST;
    typedef humoto::LeftOrRight LR;
    typedef humoto::walking::FootBoundsType FBT;

    struct PlanInterval { ST::Type type, previous; humoto::walking::StanceSubType::Type subtype; long T_ms, support; Real theta; };
    struct Scene
    {
        long N, S, sub, tdsS;
        humoto::wpg04::WalkParameters wp;
        humoto::walking::StanceFiniteStateMachine fsm;
        humoto::wpg04::Model model;
        humoto::wpg04::ModelState state;
        humoto::wpg04::MPCParameters mp;
        Real yaw_left, yaw_right, height;
        std::vector<PlanInterval> plan;
        std::vector<long> starts;              // intervals at which a planned (not yet taken) support starts
        Scene() : mp(2, 2, 1, 1) {}
    };
    inline MatX rotation2(const Real &t)
    {
        using std::cos; using std::sin;
        MatX r(2, 2); r << cos(t), -sin(t), sin(t), cos(t);
        return r;
    }
    inline void makePlan(Scene &s)
    {
        humoto::walking::StanceFiniteStateMachine f = s.fsm;
        long support = 0;
        Real theta = Real(0);
        bool known = false;
        while ((long)s.plan.size() < s.N)
        {
            humoto::walking::Stance c = f.current_stance_;
            long left = (long)c.duration_ms_ - (long)f.current_time_ms_;
            PlanInterval p;
            if (c.type_ == ST::TDS)
            {
                humoto::walking::Stance n = f.getNextStance();
                bool first = s.plan.empty();
                if (!first) { ++support; s.starts.push_back((long)s.plan.size()); }
                // orientation of the new support: steps turn by the increment, a step to or from a double support does not turn
                if (first) theta = n.type_ == ST::LSS ? s.yaw_left : n.type_ == ST::RSS ? s.yaw_right : (s.yaw_left + s.yaw_right) / Real(2);
                else if (n.type_ == ST::DS || n.previous_nontds_stance_type_ == ST::DS) { if (!known) theta = Real(0); }
                else theta = theta + s.wp.theta_increment_;
                known = true;
                p.type = n.type_; p.previous = n.previous_nontds_stance_type_; p.subtype = n.subtype_;
                p.T_ms = first ? left : s.tdsS;
                p.support = support; p.theta = theta;
                s.plan.push_back(p);
                if ((long)s.plan.size() < s.N) f.shiftTime(left);
            }
            else
            {
                if (!known) { theta = c.type_ == ST::LSS ? s.yaw_left : c.type_ == ST::RSS ? s.yaw_right : (s.yaw_left + s.yaw_right) / Real(2); known = true; }
                p.type = c.type_; p.previous = c.previous_nontds_stance_type_; p.subtype = c.subtype_;
                long seen = std::min(left, s.N * s.S);          // a stance that outlasts the horizon needs no shorter interval
                p.T_ms = s.plan.empty() && seen % s.S ? seen % s.S : s.S;
                p.support = support; p.theta = theta;
                s.plan.push_back(p);
                if ((long)s.plan.size() < s.N) f.shiftTime(p.T_ms);
            }
        }
    }
    // any phase of a walk: `elapsed_max` bounds the time since its start
    inline void makeScene(Scene &s, long N_lo, long N_hi, long elapsed_max, bool plan = true, long ss_hi = 2, bool longer = false)
    {
        s.N = size("horizon", N_lo, N_hi, N_hi + 4);
        s.S = size("sampling", 2, 2, 5); s.sub = 1;
        long tds = size("tds_duration", 1, 2, s.S);          // the preview is sized for transitions no longer than the sampling time
        s.tdsS = tds;
        s.wp.ss_duration_ms_ = s.S * size("ss_samples", 1, ss_hi, 3);
        s.wp.tds_duration_ms_ = tds;
        s.wp.first_stance_duration_ms_ = s.S;
        s.wp.last_stance_duration_ms_ = s.S * (s.N + 2);
        s.wp.num_steps_ = longer ? size("num_steps", 2, 4, 6) : size("num_steps", 2, 2, 5);
        const ST::Type firsts[] = {ST::DS, ST::DS, ST::LSS, ST::RSS};
        long k = choose("first_stance", 0, 3);
        s.wp.first_stance_ = firsts[k];
        s.wp.first_ss_type_ = k == 0 ? ST::LSS : ST::RSS;
        s.wp.com_velocity_ = symVec("vref", 2);
        s.wp.first_stance_com_velocity_ = symVec("vref_first", 2);
        s.wp.last_stance_com_velocity_ = symVec("vref_last", 2);
        s.wp.theta_increment_ = sym("turn", -1, 1);
        s.fsm.setParameters(s.wp);
        long e = size("elapsed", 0, elapsed_max, elapsed_max + 12);
        for (long i = 0; i < e; ++i) s.fsm.shiftTime(1);
        humoto::walking::Stance c = s.fsm.current_stance_;
        if (c.type_ == ST::DS && c.subtype_ == humoto::walking::StanceSubType::INTERMEDIATE) throw PathInfeasible();          // the walk is over
        if (plan && c.type_ == ST::DS && c.subtype_ == humoto::walking::StanceSubType::LAST && (long)c.duration_ms_ - (long)s.fsm.current_time_ms_ < s.N * s.S) throw PathInfeasible();
        s.mp = humoto::wpg04::MPCParameters(s.N, s.S, s.sub, s.tdsS);
        // model
        Real yl = sym("yaw_left", -1, 1), yr = sym("yaw_right", -1, 1);
        humoto::walking::Stance n = s.fsm.getNextStance();
        bool in_tds = c.type_ == ST::TDS;
        if (c.type_ == ST::DS || (in_tds && (n.type_ == ST::DS || c.previous_nontds_stance_type_ == ST::DS))) yr = yl;     // aligned feet in double supports
        else if (in_tds && n.type_ == ST::RSS) yr = yl + s.wp.theta_increment_;                                       // feet that have already landed
        else if (in_tds && n.type_ == ST::LSS) yl = yr + s.wp.theta_increment_;
        s.yaw_left = yl; s.yaw_right = yr;
        s.height = sym("height", 0.3, 1);
        requires_(gt(s.height, Real(0)));
        s.model.max_step_len_ = sym("max_step_len", 0, 1); s.model.min_feet_dist_ = sym("min_feet_dist", 0, 1); s.model.max_feet_dist_ = sym("max_feet_dist", 0, 1);
        s.model.feet_dist_default_ = sym("feet_dist", 0, 1); s.model.foot_length_ = sym("foot_length", 0, 1); s.model.foot_width_ = sym("foot_width", 0, 1);
        s.model.RobotFootParameters::finalize();
        etools::Vector3 p = symVec("p", 3), v = symVec("v", 3), a = symVec("a", 3), z = etools::Vector3::Zero();
        p(2) = s.height; v(2) = Real(0); a(2) = Real(0);
        s.state.com_state_.set(p, v, a);
        etools::Vector3 lp = symVec("left", 3), rp = symVec("right", 3), lr(Real(0), Real(0), yl), rr(Real(0), Real(0), yr);
        s.state.feet_.getLeft().set(lp, lr);
        s.state.feet_.getRight().set(rp, rr);
        s.state.stance_type_ = ST::DS; s.state.next_stance_type_ = ST::UNDEFINED;
        s.model.updateState(s.state);
        s.state.stance_type_ = c.type_; s.state.next_stance_type_ = n.type_;
        s.model.updateState(s.state);
        if (plan) makePlan(s);
    }
    inline VecX supportPosition(const Scene &s)          // where the current support is
    {
        VecX l = s.state.feet_.getLeft().position_.head(2), r = s.state.feet_.getRight().position_.head(2);
        ST::Type t = s.plan[0].type;
        return t == ST::LSS ? l : t == ST::RSS ? r : VecX((l + r) / Real(2));
    }
    inline VecX velocityReference(const Scene &s, long k)
    {
        const PlanInterval &p = s.plan[k];
        VecX v = s.wp.com_velocity_;
        if (p.type == ST::DS) { if (p.subtype == humoto::walking::StanceSubType::FIRST) v = s.wp.first_stance_com_velocity_; else v = s.wp.last_stance_com_velocity_; }
        return rotation2(p.theta) * v;
    }
    inline MatX copBounds(const Scene &s, long k) { if (s.plan[k].type == ST::DS) return s.model.getADSCoPBounds(); return s.model.getSSCoPBounds(); }
    inline MatX stepBounds(const Scene &s, long k)
    {
        const PlanInterval &p = s.plan[k];
        LR::Type side = p.type == ST::LSS ? LR::LEFT : p.type == ST::RSS ? LR::RIGHT : p.previous == ST::LSS ? LR::RIGHT : LR::LEFT;
        return s.model.getFootBounds(side, p.type == ST::DS ? FBT::ALIGNED_TO_SS : p.previous == ST::DS ? FBT::WITH_RESPECT_TO_ADS : FBT::WITH_RESPECT_TO_SS);
    }
}
