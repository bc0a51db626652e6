// PROPERTY C23
#include "pepper_common.h"
using namespace vp;
using namespace humoto::pepper_mpc;
typedef humoto::ControlProblemStatus CPS;

CONTRACT(prediction, "MPCforMG::{update,updateMatrices,parseSolution,formRotationMatrices}, condense, condenseOutput, block matrix products")
{
    PScene s(1, 4);
    if (choose("reused", 0, 1))
    {
        PScene o = s;
        o.mpc.setParameters(MPCParameters(s.N == 2 ? 3 : 2, 50, 50));
        s.mpc = o.mpc;
        s.mpc.update(s.motion, s.model);
        s.mpc.setParameters(MPCParameters(s.N, s.S, s.sub));
    }
    ensures("the controller is updated", s.mpc.update(s.motion, s.model) == CPS::OK);
    long n = 4 * s.N;
    const humoto::SolutionStructure &ss = s.mpc.getSolutionStructure();
    humoto::Location lb = ss.getSolutionPartLocation("base_vel"), ld = ss.getSolutionPartLocation("body_pos");
    ensures("variables", (long)ss.getNumberOfVariables() == n && lb.offset_ == 0 && (long)lb.length_ == 2 * s.N && (long)ld.offset_ == 2 * s.N && (long)ld.length_ == 2 * s.N);
    VecX x = symVec("x", n);
    std::vector<Robot> e = simulate(s, x);
    VecX states(12 * s.N), cop(2 * s.N), jerk(2 * s.N), acc(2 * s.N), pos(2 * s.N), rel(2 * s.N);
    Robot before = robotOf(s.state);
    for (long k = 0; k < s.N; ++k)
    {
        states.segment(6 * k, 6) = vec6(e[k].base);
        states.segment(6 * (s.N + k), 6) = vec6(e[k].body);
        cop.segment(2 * k, 2) = copOf(e[k]);
        VecX d(2);
        for (int a = 0; a < 2; ++a)
        {
            jerk(2 * k + a) = jerkToVelocity(before.base[a], x(2 * k + a), s.T());
            acc(2 * k + a) = e[k].base[a].a; pos(2 * k + a) = e[k].base[a].p;
            d(a) = e[k].base[a].p - e[k].body[a].p;
        }
        rel.segment(2 * k, 2) = rotation2(e[k].theta).transpose() * d;
        before = e[k];
    }
    s.mpc.parseSolution(s.solution(x));
    ensures("predicted states", eqm(s.mpc.cstate_profile_, states));
    ensures("predicted centres of pressure", eqm(s.mpc.cop_profile_, cop));
    ensures("predicted jerk of the base", eqm(s.mpc.base_jerk_profile_, jerk));
    ensures("controls", land({eqm(s.mpc.base_controls_, x.head(2 * s.N)), eqm(s.mpc.body_controls_, x.tail(2 * s.N))}));
    VecX xb = x.head(2 * s.N);
    ensures("matrices of the states", eqm(s.mpc.S_ * x + s.mpc.s_, states));
    ensures("matrices of the centres of pressure", eqm(s.mpc.Ap_ * x + s.mpc.sp_, cop));
    ensures("matrices of the jerk", eqm(s.mpc.Ajs_ * xb + s.mpc.sjs_, jerk));
    ensures("matrices of the acceleration of the base", eqm(s.mpc.Aas_ * xb + s.mpc.sas_, acc));
    ensures("matrices of the position of the base", eqm(s.mpc.Aps_ * xb + s.mpc.sps_, pos));
    ensures("matrices of the position of the base relative to the body", eqm(s.mpc.Apd_ * x + s.mpc.spd_, rel));
    ensures("length of the preview", (long)s.mpc.getPreviewHorizonLength() == s.N);
}
CONTRACT(next_state, "MPCforMG::{getNextModelState,initializeNextModelState,parseSolution}")
{
    PScene s(1, 3);
    s.mpc.update(s.motion, s.model);
    VecX x = symVec("x", 4 * s.N);
    std::vector<Robot> e = simulate(s, x);
    ensuresThrows("no state without a solution", [&]() { s.mpc.getNextModelState(s.model); });
    ensuresThrows("no state at an instant without a solution", [&]() { s.mpc.getModelState(s.model, (std::size_t)s.sub); });
    PState n;
    if (choose("overload", 0, 1)) { s.mpc.parseSolution(s.solution(x)); n = s.mpc.getNextModelState(s.model); }
    else n = s.mpc.getNextModelState(s.solution(x), s.model);
    ensures("the first predicted state", sameState(n, e[0]));
    ensures("orientation", eq(n.base_state_.rpy_(2), e[0].theta));
    ensures("heights and masses", sameParameters(n, robotOf(s.state)));
    ensuresThrows("a parsed solution is not parsed again", [&]() { s.mpc.getNextModelState(s.solution(x), s.model); });
    // the following iteration starts from that state
    s.model.updateState(n);
    ensures("the state of the model", land({sameState(s.model.state_, e[0]), sameParameters(s.model.state_, robotOf(s.state)), eqm(s.model.getCoP(), copOf(e[0]))}));
    s.mpc.update(s.motion, s.model);
    ensuresThrows("no state without a solution of the new problem", [&]() { s.mpc.getNextModelState(s.model); });
    if (s.N > 1)
    {
        VecX y = VecX::Zero(4 * s.N);
        y.head(2 * s.N - 2) = x.segment(2, 2 * s.N - 2); y.segment(2 * s.N, 2 * s.N - 2) = x.tail(2 * s.N - 2);
        PState n2 = s.mpc.getNextModelState(s.solution(y), s.model);
        ensures("the second iteration continues the first", land({sameState(n2, e[1]), sameParameters(n2, robotOf(s.state)), eq(n2.base_state_.rpy_(2), e[1].theta)}));
    }
}
CONTRACT(time_instants, "MPCforMG::getModelState, PreviewHorizon::getIntervalIndexByTimeOffset")
{
    PScene s(1, 3);
    s.mpc.update(s.motion, s.model);
    VecX x = symVec("x", 4 * s.N);
    std::vector<Robot> e = simulate(s, x);
    s.mpc.parseSolution(s.solution(x));
    bool real = choose("real_time", 0, 1);
    long end = s.N * s.S, at = size("instant_in_25ms", 0, 40, 66) * 25;
    PState g;
    if (concreteMode() && real && at == end) throw PathInfeasible();          // in double, the sum of the periods may be below the product
    if (at > end)
    {
        if (real) { ensuresThrows("instants beyond the preview are refused", [&]() { s.mpc.getModelState(s.model, Real(at) / Real(1000)); }); }
        else ensuresThrows("instants beyond the preview are refused", [&]() { s.mpc.getModelState(s.model, (std::size_t)at); });
        return;
    }
    long k = 0, off = at;
    while (off > s.S) { off -= s.S; ++k; }
    Robot r0 = k == 0 ? robotOf(s.state) : e[k - 1];
    Real t = Real(off) / Real(1000);
    if (real) g = s.mpc.getModelState(s.model, Real(at) / Real(1000));
    else g = s.mpc.getModelState(s.model, (std::size_t)at);
    Robot r = advance(r0, x.segment(2 * k, 2), x.segment(2 * (s.N + k), 2), s.T(), t);
    ensures("predicted state at an instant", sameState(g, r));
    ensures("orientation at an instant", eq(g.base_state_.rpy_(2), s.state.base_state_.rpy_(2) + s.motion.base_angular_velocity_ * Real(at) / Real(1000)));
    ensures("heights and masses", sameParameters(g, robotOf(s.state)));
}
CONTRACT(any_instant, "MPCforMG::getModelState(double), PreviewHorizon::getIntervalIndexByTimeOffset(double)")
{
    PScene s(1, 3);
    s.mpc.update(s.motion, s.model);
    VecX x = symVec("x", 4 * s.N);
    std::vector<Robot> e = simulate(s, x);
    s.mpc.parseSolution(s.solution(x));
    Real at = sym("t", 0, 0.3);
    requires_(ge(at, Real(0)));
    if (at > Real(s.N) * s.T()) { ensuresThrows("instants beyond the preview are refused", [&]() { s.mpc.getModelState(s.model, at); }); return; }
    PState g = s.mpc.getModelState(s.model, at);
    std::vector<Formula> f;
    for (long k = 0; k < s.N; ++k)
    {
        Robot r0 = k == 0 ? robotOf(s.state) : e[k - 1], r = advance(r0, x.segment(2 * k, 2), x.segment(2 * (s.N + k), 2), s.T(), at - Real(k) * s.T());
        ensures("predicted state at any instant", implies(land({ge(at, Real(k) * s.T()), le(at, Real(k + 1) * s.T())}), land({sameState(g, r), eq(g.base_state_.rpy_(2), s.state.base_state_.rpy_(2) + s.motion.base_angular_velocity_ * at)})));
    }
}
// specification of a sequence of motions: the motion in force at time t > 0 is the first that has not ended before t
static long inForce(const std::vector<long> &d, long t)
{
    long end = 0;
    for (std::size_t i = 0; i < d.size(); ++i) { if (d[i] < 0) return (long)i; end += d[i]; if (end >= t) return (long)i; }
    return -1;
}
static std::vector<long> durations(long n, long unit)
{
    std::vector<long> d;
    for (long i = 0; i < n; ++i) { long c = choose(idx("duration", i), -1, 5); d.push_back(c < 0 ? -1 : c * unit); }
    return d;
}
static PMotion symMotion(const std::string &n, long d)
{
    PMotion m;
    m.base_velocity_ = symVec(n + "v", 2); m.base_position_ = symVec(n + "p", 2); m.base_angular_velocity_ = sym(n + "w", -1, 1);
    m.duration_ms_ = d;
    return m;
}
CONTRACT(preview, "PreviewHorizon::form, PreviewHorizonInterval::initialize, MPCforMG::update")
{
    PState st = symState("");
    PModel m;
    RobotParameters rp;
    rp.base_radius_ = sym("radius", 0, 1); rp.max_nominal_base_velocity_ = sym("nominal_velocity", 0, 1); rp.max_nominal_base_acceleration_ = sym("nominal_acceleration", 0, 1);
    rp.body_bounds_ = symMat("body", 2, 2);
    rp.finalize();
    m.setParameters(rp);
    m.updateState(st);
    long N = size("horizon", 1, 3, 5), S = 2, len = size("motions", 0, 3, 6);
    bool single = len == 0;
    std::vector<long> d = durations(single ? 1 : len, 1);
    std::vector<PMotion> q;
    for (std::size_t i = 0; i < d.size(); ++i) q.push_back(symMotion(idx("m", (long)i), d[i]));
    PreviewHorizon ph;
    MPCParameters mp(N, S, S);
    bool formed = single ? ph.form(mp, m, q[0]) : ph.form(mp, m, std::deque<PMotion>(q.begin(), q.end()));
    ensures("a preview exists when the motions last long enough", formed == (inForce(d, N * S) >= 0));
    if (!formed) return;
    ensures("length of the preview", (long)ph.getPreviewHorizonLength() == N);
    Real theta = st.base_state_.rpy_(2), T = Real(S) / Real(1000);
    for (long k = 0; k < N; ++k)
    {
        const PMotion &mo = q[inForce(d, (k + 1) * S)];
        theta = theta + mo.base_angular_velocity_ * T;
        const PreviewHorizonInterval &v = ph.intervals_[k];
        ensures("duration", land({eq(v.T_, T), Formula((long)v.T_ms_ == S)}));
        ensures("orientation", land({eq(v.theta_, theta), eqm(ph.getRotationMatrix(k), rotation2(theta))}));
        ensures("reference velocity", eqm(ph.getBaseReferenceVelocity(k), rotation2(theta) * mo.base_velocity_));
        ensures("reference position", eqm(ph.getBaseReferencePosition(k), mo.base_position_));
        ensures("bounds", land({eqm(ph.getCoPBounds(k), rp.getCoPBounds()), eqm(ph.getNominalBaseVelocityBounds(k), rp.getNominalBaseVelocityBounds()), eqm(ph.getNominalBaseAccelerationBounds(k), rp.getNominalBaseAccelerationBounds()), eqm(ph.getBodyBounds(k), rp.getBodyBounds())}));
        ensures("heights and masses", land({eq(v.base_height_, st.base_state_.position_(2)), eq(v.body_height_, st.body_state_.position_(2)), eq(v.base_mass_, st.base_mass_), eq(v.body_mass_, st.body_mass_)}));
    }
}
CONTRACT(shift, "MPCforMG::{shift,updateAndShift,update}")
{
    long len = size("motions", 0, 3, 6), N = size("horizon", 1, 2, 5), S = 2;
    bool single = len == 0;
    std::vector<long> d = durations(single ? 1 : len, 1);
    PState st;
    PModel m;
    m.updateState(st);
    MPCforMG mpc(MPCParameters(N, S, S));
    std::deque<PMotion> q;
    for (std::size_t i = 0; i < d.size(); ++i) { PMotion mo; mo.duration_ms_ = d[i]; mo.base_position_(0) = Real((long)i); q.push_back(mo); }
    long by = size("shift", 0, 4, 7), how = choose("how", 0, 2);          // shift, default shift, update and shift
    long shift = how == 0 ? by : S;
    if (how != 0 && by != 0) throw PathInfeasible();
    bool ok = true;
    CPS::Status status = CPS::OK;
    if (single)
    {
        if (how == 0) mpc.shift(q[0], by);
        else if (how == 1) mpc.shift(q[0]);
        else status = mpc.updateAndShift(q[0], m);
    }
    else
    {
        if (how == 0) mpc.shift(q, by);
        else if (how == 1) mpc.shift(q);
        else status = mpc.updateAndShift(q, m);
    }
    if (how == 2)
    {
        ensures("the controller stops when the motions end within the preview", (status == CPS::OK) == (inForce(d, N * S) >= 0) && (status == CPS::OK || status == CPS::STOPPED));
        if (status != CPS::OK) shift = 0;
    }
    std::vector<long> after;
    for (std::size_t i = 0; i < q.size(); ++i) after.push_back(q[i].duration_ms_);
    for (long t = 1; t < 20; ++t)
    {
        long i = inForce(d, t + shift), j = inForce(after, t);
        if (i < 0 || j < 0) ok = ok && i == j;
        else ok = ok && (single || q[j].base_position_(0) == Real(i));
    }
    ensures("the motion in force at each later instant is the same", ok);
}
CONTRACT(guess, "MPCforMG::guessSolution")
{
    PScene s(1, 3);
    s.mpc.update(s.motion, s.model);
    VecX x = symVec("x", 4 * s.N);
    humoto::Solution g, none, old = s.solution(x);
    s.mpc.guessSolution(g, old);
    VecX e = VecX::Zero(4 * s.N);
    e.head(2 * s.N - 2) = x.segment(2, 2 * s.N - 2);
    e.segment(2 * s.N, 2 * s.N - 2) = x.tail(2 * s.N - 2);
    ensures("the guess is the previous solution shifted by an interval", eqm(g.x_, e));
    s.mpc.guessSolution(g, none);
    ensures("without a previous solution the guess is zero", eqm(g.x_, VecX(VecX::Zero(4 * s.N))));
}
