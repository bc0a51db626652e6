// PROPERTY C19
#include "wpg_common.h"
using namespace vp;

CONTRACT(preview, "PreviewHorizon::{form,previewStates,getConstraints,getCoPBounds,getFootPositionBounds,getRotationMatrix,getWalkState,getNumberOfVariableSteps}")
{
    Scene s; makeScene(s, 2, 4, 13);
    humoto::wpg04::PreviewHorizon h;
    if (choose("reused", 0, 1)) { humoto::walking::StanceFiniteStateMachine other(s.wp); h.form(s.mp, s.model, other, s.wp); }
    bool formed = h.form(s.mp, s.model, s.fsm, s.wp);
    ensures("a preview is formed", formed && (long)h.intervals_.size() == s.N);
    if ((long)h.intervals_.size() != s.N) return;
    for (long k = 0; k < s.N; ++k)
    {
        const PlanInterval &p = s.plan[k];
        const humoto::wpg04::PreviewHorizonInterval &i = h.intervals_[k];
        ensures("duration of an interval", (long)i.T_ms_ == p.T_ms);
        ensures("duration in seconds", eq(i.T_ * Real(1000), Real(p.T_ms)));
        ensures("planned support", h.getWalkState(k).type_ == p.type);
        ensures("orientation of the support", eqm(h.getRotationMatrix(k), rotation2(p.theta)));
        ensures("yaw of the support", eq(h.getWalkState(k).theta_, p.theta));
        ensures("velocity reference", eqm(i.cvel_ref_, velocityReference(s, k)));
        ensures("bounds of the centre of pressure", eqm(h.getCoPBounds(k), copBounds(s, k)));
        ensures("height and frequency of the pendulum", land({eq(i.com_height_, s.height), gt(i.omega_, Real(0)), eq(i.omega_ * i.omega_ * s.height, Real(humoto::g_gravitational_acceleration))}));
        for (long j = 0; j < k; ++j) ensures("intervals of one support refer to the same footstep", (i.state_index_ == h.intervals_[j].state_index_) == (p.support == s.plan[j].support));
    }
    ensures("number of planned footsteps", h.getNumberOfVariableSteps() == s.starts.size() && h.variable_steps_indices_.size() == s.starts.size());
    for (std::size_t j = 0; j < s.starts.size() && j < h.variable_steps_indices_.size(); ++j)
    {
        ensures("a footstep starts with its first interval", (long)h.variable_steps_indices_[j] == s.starts[j]);
        ensures("bounds of a footstep", eqm(h.getFootPositionBounds(j), stepBounds(s, s.starts[j])));
    }
}
CONTRACT(end_of_walk, "PreviewHorizon::form, MPCforWPG::update")
{
    Scene s; makeScene(s, 2, 3, 0, false, 1);
    long left = choose("left", 1, 8);
    humoto::walking::StanceFiniteStateMachine f = s.fsm;
    while (!(f.current_stance_.type_ == ST::DS && f.current_stance_.subtype_ == humoto::walking::StanceSubType::LAST)) f.shiftTime(1);
    long extra = (long)f.current_stance_.duration_ms_ - (long)f.current_time_ms_ - left;
    if (extra > 0) f.shiftTime(extra);
    humoto::wpg04::ModelState st = s.state; st.stance_type_ = ST::DS; s.model.updateState(st);
    humoto::wpg04::PreviewHorizon h;
    bool enough = left >= s.N * s.S;
    ensures("the preview ends when the plan does not cover it", h.form(s.mp, s.model, f, s.wp) == enough);
    humoto::wpg04::MPCforWPG mpc(s.mp);
    ensures("the controller stops when the plan does not cover the preview", (mpc.update(s.model, f, s.wp) == humoto::ControlProblemStatus::OK) == enough);
}
CONTRACT(selection, "MPCforWPG::{update,formRotationMatrices,formFootPosMatrices}")
{
    Scene s; makeScene(s, 2, 4, 13);
    humoto::wpg04::MPCforWPG mpc(s.mp);
    if (mpc.update(s.model, s.fsm, s.wp) != humoto::ControlProblemStatus::OK) { ensures("the controller is updated", false); return; }
    const humoto::SolutionStructure &ss = mpc.getSolutionStructure();
    long M = (long)s.starts.size();
    ensures("variables of the problem", (long)ss.getSolutionPartLocation(humoto::wpg04::COP_VARIABLES_ID).length_ == 2 * s.N && (long)ss.getSolutionPartLocation(humoto::wpg04::FOOTPOS_VARIABLES_ID).length_ == 2 * M && (long)ss.getNumberOfVariables() == 2 * (s.N + M));
    // positions of the supports: each planned footstep is a displacement in the frame of the preceding support
    VecX f = symVec("f", 2 * M), p0 = supportPosition(s), pos(2 * s.N), feet(2 * M);
    VecX p = p0;
    long j = 0;
    for (long k = 0; k < s.N; ++k)
    {
        if (k > 0 && s.plan[k].support != s.plan[k - 1].support) { p = p + rotation2(s.plan[k - 1].theta) * f.segment(2 * j, 2); feet.segment(2 * j, 2) = p; ++j; }
        pos.segment(2 * k, 2) = p;
    }
    ensures("support of every interval", eqm(mpc.V_ * f + mpc.V0_, pos));
    ensures("planned footsteps", eqm(mpc.Vfp_ * f + mpc.vfp_, feet));
    VecX c = symVec("c", 2 * s.N), g(2 * s.N);
    for (long k = 0; k < s.N; ++k) g.segment(2 * k, 2) = rotation2(s.plan[k].theta) * c.segment(2 * k, 2);
    ensures("local frame of every interval", eqm(mpc.Rh_ * c, g));
}
CONTRACT(support_position, "wpg04::Model::{updateState,determineSupportPosition,getFootState,getCoMState,getCoMHeight}")
{
    // every pair of consecutive stances, with new feet states
    const ST::Type all[] = {ST::DS, ST::LSS, ST::RSS, ST::TDS};
    humoto::wpg04::Model m;
    humoto::wpg04::ModelState a, b;
    a.feet_.getLeft().set(symVec("la", 3), symVec("lra", 3)); a.feet_.getRight().set(symVec("ra", 3), symVec("rra", 3));
    b.feet_.getLeft().set(symVec("lb", 3), symVec("lrb", 3)); b.feet_.getRight().set(symVec("rb", 3), symVec("rrb", 3));
    etools::Vector3 p = symVec("p", 3), v = symVec("v", 3), c = symVec("a", 3);
    b.com_state_.set(p, v, c);
    ST::Type from = all[choose("from", 0, 3)], to = all[choose("to", 0, 3)], next = all[choose("next", 0, 2)];
    a.stance_type_ = ST::DS; a.next_stance_type_ = ST::TDS;
    m.updateState(a);
    a.stance_type_ = from; a.next_stance_type_ = next;
    m.updateState(a);
    b.stance_type_ = to; b.next_stance_type_ = next;
    m.updateState(b);
    bool left = to == ST::DS || to == ST::LSS || (to == ST::TDS && from == ST::RSS), right = to == ST::DS || to == ST::RSS || (to == ST::TDS && from == ST::LSS);
    const humoto::wpg04::ModelState &el = left ? b : a, &er = right ? b : a;
    VecX l = el.feet_.getLeft().position_, r = er.feet_.getRight().position_;
    ensures("the left foot moves only when it lands or supports", land({eqm(m.getFootState(LR::LEFT).position_, l), eqm(m.getFootState(LR::LEFT).rpy_, el.feet_.getLeft().rpy_)}));
    ensures("the right foot moves only when it lands or supports", land({eqm(m.getFootState(LR::RIGHT).position_, r), eqm(m.getFootState(LR::RIGHT).rpy_, er.feet_.getRight().rpy_)}));
    ST::Type t = to == ST::TDS ? next : to;
    VecX sp = t == ST::LSS ? VecX(l.head(2)) : t == ST::RSS ? VecX(r.head(2)) : VecX((l.head(2) + r.head(2)) / Real(2));
    ensures("support position", eqm(m.current_support_position_, sp));
    ensures("state of the centre of mass", land({eqm(m.getCoMState().position_, p), eqm(m.getCoMState().velocity_, v), eqm(m.getCoMState().acceleration_, c), eq(m.getCoMHeight(), p(2))}));
    ensures("stance", m.state_.stance_type_ == to && m.state_.next_stance_type_ == next);
}

CONTRACT(model_states, "wpg04::ModelState::{ModelState,set,setDefaults}, wpg04::Model::{Model,setFootParameters,updateState,getCState}")
{
    humoto::walking::RobotFootParameters fp;
    fp.max_step_len_ = sym("max_step_len", 0, 1); fp.min_feet_dist_ = sym("min_feet_dist", 0, 1); fp.max_feet_dist_ = sym("max_feet_dist", 0, 1);
    fp.feet_dist_default_ = sym("feet_dist", 0, 1); fp.foot_length_ = sym("foot_length", 0, 1); fp.foot_width_ = sym("foot_width", 0, 1);
    fp.finalize();
    Real h = sym("height", 0.3, 1);
    requires_(gt(h, Real(0)));
    etools::Vector3 p = symVec("p", 3), v = symVec("v", 3), a = symVec("a", 3);
    humoto::rigidbody::PointMassState com; com.set(p, v, a);
    humoto::rigidbody::RigidBodyState l, r;
    l.set(symVec("l", 3), symVec("lr", 3)); r.set(symVec("r", 3), symVec("rr", 3));
    const ST::Type all[] = {ST::DS, ST::LSS, ST::RSS, ST::TDS, ST::UNDEFINED};
    // a given state
    humoto::wpg04::ModelState s;
    ST::Type t = all[choose("stance", 0, 4)];
    if (t == ST::TDS || t == ST::UNDEFINED) { ensuresThrows("a state in the middle of a transition is refused", [&]() { s.set(t, com, l, r); }); return; }
    s.set(t, com, l, r);
    ensures("given stance", s.stance_type_ == t && s.next_stance_type_ == ST::UNDEFINED);
    ensures("given feet and centre of mass", land({eqm(s.com_state_.position_, p), eqm(s.com_state_.velocity_, v), eqm(s.com_state_.acceleration_, a), eqm(s.feet_.getLeft().position_, l.position_),
        eqm(s.feet_.getLeft().rpy_, l.rpy_), eqm(s.feet_.getRight().position_, r.position_), eqm(s.feet_.getRight().rpy_, r.rpy_)}));
    // the initial state of a robot: a double support around the origin, at rest
    const long how = choose("how", 0, 2);
    if (how == 0) s = humoto::wpg04::ModelState(fp, h);
    else if (how == 1) s.set(fp, h);
    else { s.setDefaults(); fp = humoto::walking::RobotFootParameters(); h = Real(0.814); }
    VecX o2 = VecX::Zero(2), o3 = VecX::Zero(3), c(3); c << Real(0), Real(0), h;
    ensures("a robot starts in a double support", s.stance_type_ == ST::DS && s.next_stance_type_ == ST::UNDEFINED);
    ensures("its centre of mass is at rest over the origin", land({eqm(s.com_state_.position_, c), eqm(s.com_state_.velocity_, o3), eqm(s.com_state_.acceleration_, o3)}));
    for (int k = 0; k < 2; ++k)
    {
        LR::Type side = k ? LR::RIGHT : LR::LEFT;
        VecX f(3); f << Real(0), (k ? Real(-1) : Real(1)) * fp.feet_dist_default_ / Real(2), Real(0);
        ensures("its feet are the default distance apart", eqm(s.feet_[side].position_, f));
        ensures("its feet are at rest and not turned", land({eqm(s.feet_[side].velocity_, o3), eqm(s.feet_[side].acceleration_, o3), eqm(s.feet_[side].rpy_, o3)}));
    }
    // a model with this state
    humoto::wpg04::Model m;
    m.setFootParameters(fp);
    ensures("parameters of the model", land({eq(m.max_step_len_, fp.max_step_len_), eq(m.feet_dist_default_, fp.feet_dist_default_), eq(m.foot_length_, fp.foot_length_), eq(m.foot_width_, fp.foot_width_),
        eqm(m.getSSCoPBounds(), fp.getSSCoPBounds()), eqm(m.getADSCoPBounds(), fp.getADSCoPBounds()), eqm(m.getFootBounds(LR::LEFT, FBT::WITH_RESPECT_TO_SS), fp.getFootBounds(LR::LEFT, FBT::WITH_RESPECT_TO_SS))}));
    ensures("a new model stands in a double support", m.state_.stance_type_ == ST::DS && holds(eqm(m.current_support_position_, o2)));
    m.updateState(s);
    ensures("state of the model", land({eqm(m.current_support_position_, o2), eqm(m.getCoMState().position_, c), eqm(m.getFootState(LR::LEFT).position_, s.feet_.getLeft().position_), eqm(m.getFootState(LR::RIGHT).position_, s.feet_.getRight().position_)}));
    // stances that cannot occur
    s.stance_type_ = choose("impossible", 0, 1) ? ST::TDS : ST::UNDEFINED;
    s.next_stance_type_ = s.stance_type_ == ST::TDS && choose("next", 0, 1) ? ST::TDS : ST::UNDEFINED;
    ensuresThrows("a transition to nowhere is refused", [&]() { m.updateState(s); });
}
