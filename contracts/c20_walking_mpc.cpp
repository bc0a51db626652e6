// PROPERTY C20
#include "wpg_common.h"
using namespace vp;
typedef humoto::walking::PointMassModel6z PM;

struct Sim { VecX cop, footpos, states, dcop; };
// the walking model driven by the controls of a solution vector: c local positions of the centre of pressure, f footsteps
static Sim simulate(const Scene &s, const VecX &c, const VecX &f, bool states = true)
{
    Sim r;
    r.cop.resize(2 * s.N); r.states.resize(6 * s.N); r.dcop.resize(2 * s.N); r.footpos.resize(f.size());
    VecX p = supportPosition(s), x = PM::convertCoMState(s.state.com_state_);
    Real w = PM::getOmega(s.height);
    long j = 0;
    for (long k = 0; k < s.N; ++k)
    {
        if (k > 0 && s.plan[k].support != s.plan[k - 1].support) { p = p + rotation2(s.plan[k - 1].theta) * f.segment(2 * j, 2); r.footpos.segment(2 * j, 2) = p; ++j; }
        Real T = Real(s.plan[k].T_ms) / Real(1000);
        VecX z = p + rotation2(s.plan[k].theta) * c.segment(2 * k, 2);
        r.cop.segment(2 * k, 2) = z;
        if (!states) continue;
        r.dcop.segment(2 * k, 2) = PM::getD6(T, w) * x + PM::getE6(T, w) * z;
        x = PM::getA6(T, w) * x + PM::getB6(T, w) * z;
        r.states.segment(6 * k, 6) = x;
    }
    return r;
}
static humoto::Solution makeSolution(const humoto::wpg04::MPCforWPG &mpc, const VecX &c, const VecX &f)
{
    humoto::Solution sol;
    sol.initialize(mpc.getSolutionStructure(), 0.0);
    VecX x(c.size() + f.size()); x << c, f;
    sol.x_ = x;
    return sol;
}

CONTRACT(prediction, "MPCforWPG::{update,parseSolution}, condense, condenseOutput, block matrix products")
{
    Scene s; makeScene(s, 2, 3, 13);
    humoto::wpg04::MPCforWPG mpc(s.mp);
    if (choose("reused", 0, 1)) { humoto::walking::StanceFiniteStateMachine other(s.wp); mpc.update(s.model, other, s.wp); }
    if (mpc.update(s.model, s.fsm, s.wp) != humoto::ControlProblemStatus::OK) { ensures("the controller is updated", false); return; }
    long M = (long)s.starts.size();
    VecX c = symVec("c", 2 * s.N), f = symVec("f", 2 * M);
    ensures("sizes", mpc.S_.rows() == 6 * s.N && mpc.S_.cols() == 2 * (s.N + M) && mpc.Sdz_.rows() == 2 * s.N && mpc.Sdz_.cols() == 2 * (s.N + M));
    Sim e = simulate(s, c, f);
    mpc.parseSolution(makeSolution(mpc, c, f));
    ensures("centres of pressure", eqm(mpc.cop_profile, e.cop));
    ensures("footsteps", eqm(mpc.footpos_profile, e.footpos));
    for (long k = 0; k < s.N; ++k)
    {
        ensures("predicted states", eqm(mpc.cstate_profile.segment(6 * k, 6), e.states.segment(6 * k, 6)));
        ensures("velocities of the centre of pressure", eqm(mpc.dcop_profile.segment(2 * k, 2), e.dcop.segment(2 * k, 2)));
    }
    VecX x(2 * (s.N + M)); x << c, f;
    ensures("matrices of the predicted states", eqm(mpc.S_ * x + mpc.s_, e.states));
    ensures("matrices of the velocities of the centre of pressure", eqm(mpc.Sdz_ * x + mpc.sdz_, e.dcop));
    ensures("selection of velocities", eqm((mpc.velocity_selector_ * mpc.S_) * x + mpc.velocity_selector_ * mpc.s_, [&]() { VecX v(2 * s.N); for (long k = 0; k < 2 * s.N; ++k) v(k) = e.states(3 * k + 1); return v; }()));
}
// longer previews, in two halves: where the supports and the centres of pressure are, and how the states follow from them
CONTRACT(positions_over_several_steps, "MPCforWPG::{update,parseSolution,formFootPosMatrices,formRotationMatrices}")
{
    Scene s; makeScene(s, 4, 7, 10, true, 1, true);
    humoto::wpg04::MPCforWPG mpc(s.mp);
    if (mpc.update(s.model, s.fsm, s.wp) != humoto::ControlProblemStatus::OK) { ensures("the controller is updated", false); return; }
    long M = (long)s.starts.size();
    VecX c = symVec("c", 2 * s.N), f = symVec("f", 2 * M);
    Sim e = simulate(s, c, f, false);
    mpc.parseSolution(makeSolution(mpc, c, f));
    ensures("centres of pressure", eqm(mpc.cop_profile, e.cop));
    ensures("footsteps", eqm(mpc.footpos_profile, e.footpos));
    for (long k = 0; k < s.N; ++k)
    {
        long j = 0;
        for (long i = 1; i <= k; ++i) if (s.plan[i].support != s.plan[i - 1].support) ++j;
        VecX p = j ? VecX(e.footpos.segment(2 * (j - 1), 2)) : supportPosition(s);
        ensures("support of an interval", eqm(VecX(mpc.V_.middleRows(2 * k, 2) * f + mpc.V0_.middleRows(2 * k, 2)), p));
    }
}
CONTRACT(states_over_several_steps, "MPCforWPG::{update,parseSolution}, condense, condenseOutput, block matrix products")
{
    Scene s; makeScene(s, 4, 6, 9, true, 1, true);
    // turning is covered above: here the supports are aligned, and one group of inputs at a time differs from zero
    const long what = choose("inputs", 0, 3);                      // state, position of the feet, centres of pressure, footsteps
    etools::Vector3 o = etools::Vector3::Zero();
    s.wp.theta_increment_ = Real(0); s.yaw_left = s.yaw_right = Real(0);
    etools::Vector3 z = s.state.com_state_.position_; z(0) = Real(0); z(1) = Real(0);
    if (what != 0) s.state.com_state_.set(z, o, o);
    if (what != 1) { s.state.feet_.getLeft().set(o, o); s.state.feet_.getRight().set(o, o); }
    else { s.state.feet_.getLeft().set(s.state.feet_.getLeft().position_, o); s.state.feet_.getRight().set(s.state.feet_.getRight().position_, o); }
    ST::Type now = s.state.stance_type_, next = s.state.next_stance_type_;
    s.state.stance_type_ = ST::DS; s.state.next_stance_type_ = ST::UNDEFINED; s.model.updateState(s.state);
    s.state.stance_type_ = now; s.state.next_stance_type_ = next; s.model.updateState(s.state);
    s.plan.clear(); s.starts.clear(); makePlan(s);
    humoto::wpg04::MPCforWPG mpc(s.mp);
    if (mpc.update(s.model, s.fsm, s.wp) != humoto::ControlProblemStatus::OK) { ensures("the controller is updated", false); return; }
    long M = (long)s.starts.size();
    VecX c = VecX::Zero(2 * s.N), f = VecX::Zero(2 * M);
    if (what == 2) c = symVec("c", 2 * s.N);
    if (what == 3) f = symVec("f", 2 * M);
    Sim e = simulate(s, c, f);
    mpc.parseSolution(makeSolution(mpc, c, f));
    for (long k = 0; k < s.N; ++k)
    {
        ensures("predicted states", eqm(mpc.cstate_profile.segment(6 * k, 6), e.states.segment(6 * k, 6)));
        ensures("velocities of the centre of pressure", eqm(mpc.dcop_profile.segment(2 * k, 2), e.dcop.segment(2 * k, 2)));
    }
}
CONTRACT(next_state, "MPCforWPG::{getNextModelState,initializeNextModelState,getFootLandingState}, wpg04::Model::updateState")
{
    Scene s; makeScene(s, 2, 3, 13);
    humoto::wpg04::MPCforWPG mpc(s.mp);
    if (mpc.update(s.model, s.fsm, s.wp) != humoto::ControlProblemStatus::OK) { ensures("the controller is updated", false); return; }
    long M = (long)s.starts.size();
    VecX c = symVec("c", 2 * s.N), f = symVec("f", 2 * M);
    Sim e = simulate(s, c, f);
    humoto::Solution sol = makeSolution(mpc, c, f);
    humoto::walking::StanceFiniteStateMachine fsm = s.fsm;
    ensuresThrows("no state without a solution", [&]() { mpc.getNextModelState(fsm, s.model); });
    fsm.shiftTime(s.sub);
    bool twice = choose("overload", 0, 1);
    humoto::wpg04::ModelState n;
    if (twice) { mpc.parseSolution(sol); n = mpc.getNextModelState(fsm, s.model); }
    else n = mpc.getNextModelState(sol, fsm, s.model);
    Real T = Real(s.plan[0].T_ms) / Real(1000), t = Real(s.sub) / Real(1000);
    humoto::rigidbody::PointMassState cs = PM::evaluate(t, T, s.height, etools::Vector6(PM::convertCoMState(s.state.com_state_)), etools::Vector2(e.cop.head(2)));
    ensures("state of the centre of mass after a subsample", land({eqm(n.com_state_.position_, cs.position_), eqm(n.com_state_.velocity_, cs.velocity_), eqm(n.com_state_.acceleration_, cs.acceleration_)}));
    if (s.plan[0].T_ms == s.sub) ensures("it is the first predicted one at the end of the interval", eqm(PM::convertCoMState(n.com_state_), e.states.head(6)));
    ensures("stance", n.stance_type_ == fsm.current_stance_.type_ && n.next_stance_type_ == fsm.getNextStance().type_);
    // feet: the landing foot is where the first planned footstep puts it, the others stay
    ST::Type before = s.state.stance_type_, after = n.stance_type_;
    bool landing = after == ST::TDS && (before == ST::LSS || before == ST::RSS);
    humoto::wpg04::Model next = s.model;
    next.updateState(n);
    if (landing)
    {
        LR::Type foot = before == ST::LSS ? LR::RIGHT : LR::LEFT, support = LR::invert(foot);
        long k = s.starts.at(0);
        VecX p(3);
        etools::Vector2 target = e.footpos.head(2);
        if (s.plan[k].type == ST::DS) target = s.model.getFootPositionFromADS(foot, etools::Matrix2(rotation2(s.plan[k].theta)), target);
        p << target, s.state.feet_[support].position_(2);
        VecX r(3); r << Real(0), Real(0), s.plan[k].theta;
        ensures("the swing foot lands on the planned footstep", land({eqm(n.feet_[foot].position_, p), eqm(n.feet_[foot].rpy_, r)}));
        ensures("it lands at rest", land({eqm(n.feet_[foot].velocity_, 0.0), eqm(n.feet_[foot].acceleration_, 0.0)}));
        ensures("the support foot stays", land({eqm(n.feet_[support].position_, s.state.feet_[support].position_), eqm(n.feet_[support].rpy_, s.state.feet_[support].rpy_)}));
        if (s.plan[k].type != ST::DS) ensures("the new support is the planned footstep", eqm(next.current_support_position_, e.footpos.head(2)));
        else
        {
            MatX b = stepBounds(s, k);
            requires_(land({eq(f(0), b(0, 0)), eq(f(1), b(1, 0))}));
            ensures("the final double support is the planned one", eqm(next.current_support_position_, e.footpos.head(2)));
        }
    }
    else
    {
        if (after != ST::RSS) ensures("the left foot stays", land({eqm(n.feet_.getLeft().position_, s.state.feet_.getLeft().position_), eqm(n.feet_.getLeft().rpy_, s.state.feet_.getLeft().rpy_)}));
        if (after != ST::LSS) ensures("the right foot stays", land({eqm(n.feet_.getRight().position_, s.state.feet_.getRight().position_), eqm(n.feet_.getRight().rpy_, s.state.feet_.getRight().rpy_)}));
        ensures("the model's feet stay", land({eqm(next.getFootState(LR::LEFT).position_, s.state.feet_.getLeft().position_), eqm(next.getFootState(LR::RIGHT).position_, s.state.feet_.getRight().position_)}));
    }
    // landing state asked for during a single support
    if (before == ST::LSS || before == ST::RSS)
    {
        if (!s.starts.empty())
        {
            humoto::rigidbody::RigidBodyState l = mpc.getFootLandingState(s.model);
            long k = s.starts[0];
            LR::Type foot = before == ST::LSS ? LR::RIGHT : LR::LEFT;
            etools::Vector2 target = e.footpos.head(2);
            if (s.plan[k].type == ST::DS) target = s.model.getFootPositionFromADS(foot, etools::Matrix2(rotation2(s.plan[k].theta)), target);
            ensures("planned landing position", land({eqm(l.position_.head(2), target), eq(l.position_(2), s.state.feet_[LR::invert(foot)].position_(2)), eq(l.rpy_(2), s.plan[k].theta), eq(l.rpy_(0), Real(0)), eq(l.rpy_(1), Real(0))}));
        }
    }
    else ensuresThrows("no landing without a single support", [&]() { mpc.getFootLandingState(s.model); });
}
CONTRACT(time_instants, "MPCforWPG::getCoMState")
{
    Scene s; makeScene(s, 2, 3, 13, true, 1);
    humoto::wpg04::MPCforWPG mpc(s.mp);
    if (mpc.update(s.model, s.fsm, s.wp) != humoto::ControlProblemStatus::OK) { ensures("the controller is updated", false); return; }
    long M = (long)s.starts.size();
    VecX c = symVec("c", 2 * s.N), f = symVec("f", 2 * M);
    Sim e = simulate(s, c, f);
    ensuresThrows("no state without a solution", [&]() { mpc.getCoMState(s.model, 0); });
    mpc.parseSolution(makeSolution(mpc, c, f));
    long end = 0;
    for (long k = 0; k < s.N; ++k) end += s.plan[k].T_ms;
    long at = choose("instant", 0, 2 * s.N);
    if (at > end) { ensuresThrows("instants beyond the preview are refused", [&]() { mpc.getCoMState(s.model, at); }); return; }
    long k = 0, off = at;
    while (off > s.plan[k].T_ms) { off -= s.plan[k].T_ms; ++k; }
    etools::Vector6 x = k == 0 ? etools::Vector6(PM::convertCoMState(s.state.com_state_)) : etools::Vector6(e.states.segment(6 * (k - 1), 6));
    Real w = PM::getOmega(s.height), T = Real(s.plan[k].T_ms) / Real(1000), t = Real(off) / Real(1000);
    VecX y = PM::getA6(t, w, T) * x + PM::getB6(t, w, T) * e.cop.segment(2 * k, 2);
    humoto::rigidbody::PointMassState g = mpc.getCoMState(s.model, at);
    ensures("predicted state at an instant", eqm(PM::convertCoMState(g), y));
    ensures("height", eq(g.position_(2), s.height));
    ensures("length of the preview", (long)mpc.getPreviewHorizonLength() == s.N);
}
CONTRACT(guess, "MPCforWPG::guessSolution")
{
    Scene s; makeScene(s, 2, 3, 12);
    humoto::wpg04::MPCforWPG mpc(s.mp);
    mpc.update(s.model, s.fsm, s.wp);
    long M = (long)s.starts.size();
    VecX c = symVec("c", 2 * s.N), f = symVec("f", 2 * M);
    humoto::Solution old = makeSolution(mpc, c, f), g, none;
    humoto::walking::StanceFiniteStateMachine fsm = s.fsm;
    fsm.shiftTime(s.sub);
    humoto::wpg04::ModelState n = mpc.getNextModelState(old, fsm, s.model);
    humoto::wpg04::Model m = s.model;
    m.updateState(n);
    if (mpc.update(m, fsm, s.wp) != humoto::ControlProblemStatus::OK) throw PathInfeasible();
    long M2 = (long)mpc.preview_horizon_.getNumberOfVariableSteps();
    mpc.guessSolution(g, old);
    VecX e = VecX::Zero(2 * (s.N + M2));
    e.head(2 * (s.N - 1)) = c.tail(2 * (s.N - 1));
    for (long j = 0; j < M2; ++j)
    {
        long src = M > M2 ? j + 1 : j;
        if (src < M) e.segment(2 * (s.N + j), 2) = f.segment(2 * src, 2);
    }
    ensures("the guess is the previous solution shifted by an interval", eqm(g.x_, e));
    mpc.guessSolution(g, none);
    ensures("without a previous solution the guess is zero", eqm(g.x_, VecX(VecX::Zero(2 * (s.N + M2)))));
}
