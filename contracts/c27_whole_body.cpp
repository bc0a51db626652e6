// PROPERTY C27
// The whole-body controller of Pepper: model, tasks and commands, over arbitrary poses of a robot with the links of its description.
#include "kinematics_common.h"
#include "humoto/pepper_ik.h"
using namespace vp;
namespace ik = humoto::pepper_ik;
namespace rb = humoto::rigidbody;
typedef ik::ModelFeatures MF;
typedef rb::EulerAngles EA;
enum { TORSO = MF::FIXED_WHEELS | MF::ROOT_TORSO, TIBIA = MF::FIXED_WHEELS | MF::ROOT_TIBIA, PLANAR = MF::FIXED_WHEELS | MF::ROOT_PLANAR };
static const char *BODY_LINKS[] = {"Head", "Hip", "LBicep", "LElbow", "LForeArm", "LShoulder", "Neck", "Pelvis", "RBicep", "RElbow", "RForeArm", "RShoulder", "l_wrist", "r_wrist", "torso"};
#define FEATURES(f) switch (choose("features", 0, 2)) { case 0: f<TORSO>(); break; case 1: f<TIBIA>(); break; default: f<PLANAR>(); }
// a column for each joint that both descriptions name
#define JOINTS(X) X(KneePitch) X(HipPitch) X(HipRoll) X(HeadYaw) X(HeadPitch) X(LShoulderPitch) X(LShoulderRoll) X(LElbowYaw) X(LElbowRoll) X(LWristYaw) \
    X(RShoulderPitch) X(RShoulderRoll) X(RElbowYaw) X(RElbowRoll) X(RWristYaw)

static etools::Vector3 v3(const std::string &n) { return etools::Vector3(symVec(n, 3, -1, 1)); }
static Real gain_() { Real g = sym("gain", 2, 3); requires_(ge(g, Real(2))); return g; }
static MatX rpyMatrix(const etools::Vector3 &e) { return rb::convertEulerAnglesToMatrix(e, EA::RPY); }
// callee contract: C10
static VecX rotationError(const MatX &from, const MatX &to) { return rb::getRotationErrorAngleAxis(etools::Matrix3(from), etools::Matrix3(to)); }
static Formula within(const VecX &x, const VecX &lo, const VecX &hi, double tol)
{
    std::vector<Formula> f;
    for (long i = 0; i < x.size(); ++i) { f.push_back(ge(x(i), lo(i) - tol)); f.push_back(le(x(i), hi(i) + tol)); }
    return land(f);
}
// f is accepted exactly when `good`
template <class T> static bool acceptedIff(const std::string &what, const Formula &good, T f)
{
    bool refused = false;
    try { f(); }
    catch (const EigenAssertFailure &) { throw; }
    catch (const PathInfeasible &) { throw; }
    catch (const std::exception &) { refused = true; }
    ensures(what + (refused ? ": refused only when a limit is violated" : ": accepted only within the limits"), refused ? lnot(good) : good);
    return !refused;
}

template <int F> struct World
{
    typedef ik::ModelDescription<F> D;
    typedef ik::GeneralizedCoordinates<F> G;
    Robot r;
    ik::Model<F> m;
    ik::WholeBodyController<F> wbc;
    G g;
    std::vector<long> base, body;
    // arbitrary matrices in the place of rotations, where the argument does not need them to be rotations
    explicit World(bool matrices = true) : base(1, 1)
    {
        r.choose_("", 3, true, true, matrices);
        r.dofs = D::DOF_NUMBER;
        r.first[1] = 0; r.first[2] = r.dofs - 2; r.first[3] = r.dofs - 1;
        Place w = r.places.back();
        w.name = "base_footprint"; r.places.push_back(w);
        r.places.push_back(Place{"Tibia", 1, -1});
        long i = 0;
        for (const char *l : BODY_LINKS) { long b = 2 + i++ % 2; r.places.push_back(Place{l, b, -1}); body.push_back(b); }
        RigidBodyDynamics::ghost() = RigidBodyDynamics::Ghost();
        r.install();
        load();
        state("q");
    }
    void load() { m.loadParameters("pepper.urdf"); }
    void state(const std::string &n) { g = coordinates(n); r.move(n); m.updateState(g); }
    G coordinates(const std::string &n) { G c; c.root_pose_ = symVec(n + "root", D::ROOT_DOF_NUMBER); c.joint_angles_ = symVec(n + "j", D::JOINTS_DOF_NUMBER); return c; }
    const Place &place(const std::string &n) const { for (auto &w : r.places) if (w.name == n) return w; throw PathInfeasible(); }
    VecX com(const std::vector<long> &ids) const { return r.moment(ids) / r.mass(ids); }
    MatX comJacobian(const std::vector<long> &ids) const { return r.momentJacobian(ids) / r.mass(ids); }
    MatX footprint() const { return r.orientation(place("base_footprint")); }
    // limits, in one velocity arbitrary
    void limits(long k = 0)
    {
        std::vector<Formula> f;
        m.constraints_.joint_position_bounds_min_ = symVec("jmin", D::JOINTS_DOF_NUMBER, -3, 0); m.constraints_.joint_position_bounds_max_ = symVec("jmax", D::JOINTS_DOF_NUMBER, 0, 3);
        m.constraints_.joint_velocity_bounds_.setConstant(Real(1)); m.constraints_.joint_velocity_bounds_(k) = sym("jvel", 0, 5);
        m.constraints_.wheel_velocities_max_ = symVec("wmax", 3, 0, 9);
        for (long i = 0; i < D::JOINTS_DOF_NUMBER; ++i) { f.push_back(le(m.constraints_.joint_position_bounds_min_(i), m.constraints_.joint_position_bounds_max_(i))); f.push_back(ge(m.constraints_.joint_velocity_bounds_(i), Real(0))); }
        for (long i = 0; i < 3; ++i) f.push_back(ge(m.constraints_.wheel_velocities_max_(i), Real(0)));
        requires_(land(f));
    }
};

// ---- the model
template <int F> static void modelQuantities()
{
    OpaqueMath opaque;
    World<F> w;
    typedef ik::ModelDescription<F> D;
    ensures("the base floats unless the root is planar", RigidBodyDynamics::ghost().floating == (F != PLANAR) && RigidBodyDynamics::ghost().file == "pepper.urdf");
    VecX q(D::DOF_NUMBER);
    q << w.g.root_pose_, w.g.joint_angles_;
    ensures("coordinates: the root, then the joints", land({eqm(w.g.asVector(), q), eqm(RigidBodyDynamics::ghost().q, q)}));
    ensures("the state is kept", land({eqm(w.m.getState().root_pose_, w.g.root_pose_), eqm(w.m.getState().joint_angles_, w.g.joint_angles_)}));
    std::vector<long> all(1, 1); all.push_back(2); all.push_back(3);
    ensures("mass of the base, the body and the robot", land({eq(w.m.getBaseMass(), w.r.mass(w.base)), eq(w.m.getBodyMass(), w.r.mass(w.body)), eq(w.m.getMass(), w.r.mass(all))}));
    ensures("centre of mass of the base", eqm(w.m.getBaseCoM(), w.com(w.base)));
    ensures("centre of mass of the body", eqm(w.m.getBodyCoM(), w.com(w.body)));
    ensures("centre of mass of the robot", eqm(w.m.getCoM(), w.com(all)));
    MatX J;
    const Place &f = w.place("base_footprint");
    VecX zero = VecX::Zero(3);
    ensures("orientation of the base", eqm(w.m.getBaseOrientation(), w.r.orientation(f)));
    ensures("position of the base", eqm(w.m.getBasePosition(), w.r.position(f, zero)));
    ensures("heading of the base", eq(w.m.getBaseYaw(), Real(rb::convertMatrixToEulerAngles(etools::Matrix3(w.r.orientation(f)), EA::RPY)(2))));
    const Place &t = w.r.places[choose("tag", 0, 5)];
    humoto::rbdl::TagLinkPtr tag = w.m.getLinkTag(t.name);
    ensures("position and orientation of a tag", land({eqm(w.m.getTagPosition(tag), w.r.position(t, zero)), eqm(w.m.getTagOrientation(tag), w.r.orientation(t))}));
    VecX at(3);
    if (F == TORSO) at = zero; else at << Real(-2e-05), Real(0), Real(0.139);
    rb::RigidBodyPose pose = w.m.getTorsoRootPose();
    ensures("root of the torso", eqm(pose.position_, w.r.position(w.place("torso"), at)));
    ensures("orientation of the root of the torso", eqm(pose.rpy_, rb::convertMatrixToEulerAngles(etools::Matrix3(w.r.orientation(w.place("torso"))), EA::RPY)));
    ik::MotionParameters mp, err;
    mp.base_com_position_ = v3("bc"); mp.body_com_position_ = v3("dc"); mp.base_orientation_rpy_ = v3("rpy");
    w.m.getStateError(err, mp);
    ensures("errors are reference minus state", land({eqm(err.base_com_position_, VecX(mp.base_com_position_) - w.com(w.base)), eqm(err.body_com_position_, VecX(mp.body_com_position_) - w.com(w.body)),
                                                      eqm(err.base_orientation_rpy_, rotationError(w.footprint(), rpyMatrix(mp.base_orientation_rpy_)))}));
}
template <int F> static void modelJacobians()
{
    OpaqueMath opaque;
    World<F> w(false);
    std::vector<long> all(1, 1); all.push_back(2); all.push_back(3);
    MatX J;
    w.m.getBaseCoMJacobian(J); ensures("Jacobian of the centre of mass of the base", eqm(J, w.comJacobian(w.base)));
    w.m.getBodyCoMJacobian(J); ensures("Jacobian of the centre of mass of the body", eqm(J, w.comJacobian(w.body)));
    w.m.getCoMJacobian(J); ensures("Jacobian of the centre of mass of the robot", eqm(J, w.comJacobian(all)));
    const Place &f = w.place("base_footprint");
    VecX zero = VecX::Zero(3);
    w.m.getBaseOrientationJacobian(J); ensures("Jacobian of the orientation of the base", eqm(J, w.r.jacobian(f, zero).topRows(3)));
    const Place &t = w.r.places[choose("tag", 0, 5)];
    humoto::rbdl::TagLinkPtr tag = w.m.getLinkTag(t.name);
    w.m.getTagOrientationJacobian(J, tag); ensures("Jacobian of the orientation of a tag", eqm(J, w.r.jacobian(t, zero).topRows(3)));
    w.m.getTagCompleteJacobian(J, tag); ensures("Jacobian of a tag", eqm(J, w.r.jacobian(t, zero)));
}
CONTRACT(model_jacobians, "pepper_ik::Model::{get*CoMJacobian,getBaseOrientationJacobian,getTag*Jacobian}") { FEATURES(modelJacobians) }
CONTRACT(model_quantities, "pepper_ik::Model::{loadParameters,initialize,updateState,getState,get*CoM*,get*Mass,getBase*,getTag*,getLinkTag,getTorsoRootPose,getStateError}, GeneralizedCoordinates::asVector, ModelDescription link names")
{
    FEATURES(modelQuantities)
}
template <int F> static void rootPose()
{
    OpaqueMath opaque;
    typedef ik::ModelDescription<F> D;
    ik::GeneralizedCoordinates<F> g;
    VecX before = symVec("root", D::ROOT_DOF_NUMBER);
    g.root_pose_ = before;
    VecX joints = g.joint_angles_;
    etools::Vector3 p = v3("p"), e = v3("e"), got;
    if (F == PLANAR) { p(2) = 0.0; e(0) = 0.0; e(1) = 0.0; }
    g.setRootPosition(p);
    g.getRootPosition(got);
    ensures("the position set is the position of the root", eqm(got, p));
    long np = F == PLANAR ? 2 : 3;
    ensures("setting the position keeps the orientation and the joints", land({eqm(g.root_pose_.tail(D::ROOT_DOF_NUMBER - np), before.tail(D::ROOT_DOF_NUMBER - np)), eqm(g.joint_angles_, joints)}));
    g.setRootOrientation(e);
    g.getRootPosition(got);
    ensures("setting the orientation keeps the position", eqm(got, p));
    VecX angles = g.root_pose_.tail(D::ROOT_DOF_NUMBER - np);
    if (F == PLANAR) ensures("the heading is stored", eq(angles(0), e(2)));
    else ensures("roll, pitch, yaw are stored in the order of the joints of the root", eqm(angles, rb::convertEulerAngles(e, EA::RPY, EA::YPR)));
    g.getRootOrientation(got);
    if (F == PLANAR) ensures("the heading set is the heading of the root", eqm(got, e));
    else ensures("roll, pitch, yaw are converted back", eqm(got, rb::convertEulerAngles(etools::Vector3(angles), EA::YPR, EA::RPY)));
    if (F == PLANAR)
    {
        long k = choose("axis", 0, 2);
        etools::Vector3 bad = etools::Vector3::Zero();
        bad(k) = sym("off", 0.1, 1);
        requires_(ne(bad(k), Real(0)));
        if (k == 2) ensuresThrows("a planar root does not leave its plane", [&]() { g.setRootPosition(bad); });
        else ensuresThrows("a planar root does not tilt", [&]() { g.setRootOrientation(bad); });
    }
}
CONTRACT(root_pose, "GeneralizedCoordinates::{setRootPosition,setRootOrientation,getRootPosition,getRootOrientation}, ModelDescription::{setRoot*,getRoot*}") { FEATURES(rootPose) }

// ---- data of the robot
template <int A, int B> static void reorder()
{
    typedef ik::ModelDescription<A> Out;
    typedef ik::ModelDescription<B> In;
    MatX in = symMat("m", 2, In::DOF_NUMBER), out = in;
    ik::ModelDescriptionBase<MF::FIXED_WHEELS>::template reorderJointsColumns<A, B>(out);
    std::vector<Formula> f(1, Formula(out.cols() == Out::DOF_NUMBER && out.rows() == 2));
#define X(J) f.push_back(out.cols() == Out::DOF_NUMBER ? eqm(out.col(Out::ROOT_DOF_NUMBER + Out::J), in.col(In::ROOT_DOF_NUMBER + In::J)) : Formula(false));
    JOINTS(X)
#undef X
    ensures("every joint keeps its column under the numbering of the other description", land(f));
}
template <int F> static void robotData()
{
    typedef ik::ModelDescription<F> D;
    std::set<long> ids;
#define X(J) ids.insert(D::J);
    JOINTS(X)
#undef X
    ensures("the joints are numbered 0..14 without gaps", ids.size() == 15 && *ids.begin() == 0 && *ids.rbegin() == 14 && D::JOINTS_DOF_NUMBER == 15 && D::DOF_NUMBER == D::ROOT_DOF_NUMBER + 15);
    typename D::JointAnglesVector lo, hi, vel, def, def2;
    lo.setConstant(Real(7)); hi.setConstant(Real(-7)); vel.setConstant(Real(-7)); def.setConstant(Real(7));
    D::getJointPositionBounds(lo, hi); D::getJointVelocityBounds(vel); D::getDefaultJointAngles(def);
    std::vector<Formula> f;
    for (long i = 0; i < 15; ++i) { f.push_back(lt(lo(i), def(i))); f.push_back(lt(def(i), hi(i))); f.push_back(gt(vel(i), Real(0))); }
    ensures("the default angles lie within the limits, and every joint can move", land(f));
    // the arms are mirror images: pitch is the same, roll and yaw change sign
    long l[] = {D::LShoulderPitch, D::LShoulderRoll, D::LElbowYaw, D::LElbowRoll, D::LWristYaw}, r[] = {D::RShoulderPitch, D::RShoulderRoll, D::RElbowYaw, D::RElbowRoll, D::RWristYaw};
    f.clear();
    for (long i = 0; i < 5; ++i)
    {
        f.push_back(i == 0 ? land({eq(lo(l[i]), lo(r[i])), eq(hi(l[i]), hi(r[i]))}) : land({eq(lo(l[i]), -hi(r[i])), eq(hi(l[i]), -lo(r[i]))}));
        f.push_back(eq(vel(l[i]), vel(r[i])));
        f.push_back(i == 0 ? lt(std::abs(def(l[i]) - def(r[i])), Real(1e-9)) : eq(def(l[i]), -def(r[i])));
    }
    ensures("the limits and default angles of the arms mirror each other", land(f));
    for (long i : {(long)D::HipRoll, (long)D::HeadYaw}) ensures("limits of the joints turning sideways are symmetric", eq(lo(i), -hi(i)));
    ik::GeneralizedCoordinates<F> g;
    ensures("a new state has the default angles", eqm(g.joint_angles_, def));
    typename ik::Model<F>::Constraints c;
    ensures("the limits of a model are those of the robot", land({eqm(c.joint_position_bounds_min_, lo), eqm(c.joint_position_bounds_max_, hi), eqm(c.joint_velocity_bounds_, vel)}));
    // wheels: the point of contact moves with the base, the wheel turns by the part of this motion along its tangent
    etools::Vector3 vmax; vmax.setConstant(Real(-1)); D::getMaxWheelVelocities(vmax);
    ensures("the wheels can turn", land({gt(vmax(0), Real(0)), eq(vmax(0), vmax(1)), eq(vmax(1), vmax(2)), eqm(c.wheel_velocities_max_, vmax)}));
    MatX W = D::getRootMotionToWheelsTransform();
    VecX v = symVec("v", 3);
    VecX turned = W * v;
    Real yaw[] = {Real(1.07519348146676), Real(-1.07519348146676), Real(-humoto::g_pi)}, px[] = {Real(0.09), Real(0.09), Real(-0.17)}, py[] = {Real(0.155), Real(-0.155), Real(0)};
    for (long i = 0; i < 3; ++i)
    {
        using std::sin; using std::cos;
        Real h = yaw[i] * 0.5;
        Real vx = v(0) - v(2) * py[i], vy = v(1) + v(2) * px[i];            // velocity of the wheel
        ensures("wheels turn by their share of the motion of the base", eq(turned(i) * Real(0.07), vx * (2 * sin(h) * cos(h)) - vy * (1 - 2 * sin(h) * sin(h))));
    }
}
CONTRACT(robot_data, "ModelDescription::{getJointPositionBounds,getJointVelocityBounds,getDefaultJointAngles,getDefaultGeneralizedCoordinates,getRootMotionToWheelsTransform,getMaxWheelVelocities}, Model::Constraints") { FEATURES(robotData) }
CONTRACT(reordered_columns, "ModelDescriptionBase::reorderJointsColumns")
{
    switch (choose("pair", 0, 5))
    {
        case 0: reorder<TORSO, TIBIA>(); break;
        case 1: reorder<TIBIA, TORSO>(); break;
        case 2: reorder<PLANAR, TORSO>(); break;
        case 3: reorder<TORSO, PLANAR>(); break;
        case 4: reorder<PLANAR, TIBIA>(); break;
        default: reorder<TIBIA, PLANAR>();
    }
}

// ---- tasks: A dq - b is the gain times the (scaled) error of the quantity the task names
template <class T, int F> static void formTask(World<F> &w, T &t)
{
    t.form(w.wbc.getSolutionStructure(), w.m, w.wbc);
}
template <int F> static void tasksOfMotion()
{
    OpaqueMath opaque;
    World<F> w;
    ik::MotionParameters mp;
    mp.base_com_position_ = v3("bc"); mp.body_com_position_ = v3("dc"); mp.base_orientation_rpy_ = v3("rpy");
    humoto::ControlProblemStatus::Status s = w.wbc.update(w.m, mp);
    const humoto::SolutionStructure &st = w.wbc.getSolutionStructure();
    typedef ik::ModelDescription<F> D;
    ensures("the solution: motion of the root, then of the joints", Formula(s == humoto::ControlProblemStatus::OK && (long)st.getNumberOfVariables() == D::DOF_NUMBER
        && st.getSolutionPartLocation(ik::ROOT_VARIABLES_ID) == humoto::Location(0, D::ROOT_DOF_NUMBER) && st.getSolutionPartLocation(ik::JOINTS_VARIABLES_ID) == humoto::Location(D::ROOT_DOF_NUMBER, D::JOINTS_DOF_NUMBER)));
    Real gain = choose("unit_gain", 0, 1) ? Real(1) : gain_(), k = sym("k", 0.5, 2);
    MatX A; VecX b;
    long which = choose("task", 0, 4);
    if (which == 0)
    {
        ik::TaskBaseCoMTracking<F> t(gain, k);
        formTask(w, t); A = t.getA(); b = t.getB();
        long rows = F == PLANAR ? 2 : 3;
        MatX J; w.m.getBaseCoMJacobian(J);          // callee contract: model_jacobians
        ensures("base centre of mass: Jacobian", eqm(A, gain * J.topRows(rows)));
        ensures("base centre of mass: error", eqm(b, gain * k * (VecX(mp.base_com_position_) - w.com(w.base)).head(rows)));
    }
    else if (which == 1)
    {
        ik::TaskBaseOrientation<F> t(gain, k);
        formTask(w, t); A = t.getA(); b = t.getB();
        MatX J; w.m.getBaseOrientationJacobian(J);
        VecX e = rotationError(w.footprint(), rpyMatrix(mp.base_orientation_rpy_));
        if (F == PLANAR) ensures("base orientation of a planar root: the heading", land({eqm(A, gain * J.bottomRows(1)), eqm(b, gain * k * e.tail(1))}));
        else ensures("base orientation", land({eqm(A, gain * J), eqm(b, gain * k * e)}));
    }
    else if (which == 2)
    {
        long flags = choose("axes", 0, 8);
        ik::TaskBodyCoMTracking<F> t(gain, k, (int)flags);
        if (flags == 0 || flags == 8) { ensuresThrows("a task without axes, or with unknown ones, is refused", [&]() { formTask(w, t); }); return; }
        formTask(w, t); A = t.getA(); b = t.getB();
        MatX J; w.m.getBodyCoMJacobian(J); VecX e = VecX(mp.body_com_position_) - w.com(w.body);
        std::vector<Formula> f;
        long n = 0;
        for (long i = 0; i < 3; ++i) if (flags >> i & 1) { f.push_back(A.rows() > n && b.size() > n ? land({eqm(A.row(n), gain * J.row(i)), eq(b(n), gain * k * e(i))}) : Formula(false)); ++n; }
        f.push_back(Formula(A.rows() == n && b.size() == n));
        ensures("body centre of mass along the chosen axes", land(f));
    }
    else if (which == 3)
    {
        ik::TaskJointsReference<F> t(gain, k);
        VecX ref = symVec("ref", D::JOINTS_DOF_NUMBER);
        typename D::JointAnglesVector def; D::getDefaultJointAngles(def);
        ensures("the reference is the default pose", eqm(t.joint_angles_reference_, def));
        t.joint_angles_reference_ = ref;
        formTask(w, t);
        std::vector<Formula> f(1, Formula(t.getIndices().size() == D::JOINTS_DOF_NUMBER && t.getB().size() == D::JOINTS_DOF_NUMBER && t.getIGains().size() == D::JOINTS_DOF_NUMBER));
        for (long i = 0; i < t.getIndices().size(); ++i) f.push_back(land({Formula(t.getIndices()(i) == (unsigned)(D::ROOT_DOF_NUMBER + i)), eq(t.getIGains()(i), gain), eq(t.getB()(i), gain * k * (ref(i) - w.g.joint_angles_(i)))}));
        ensures("joint references", land(f));
    }
    else
    {
        w.limits();
        ik::TaskJointsBounds<F> t;
        formTask(w, t);
        std::vector<Formula> f(1, Formula(t.getIndices().size() == D::JOINTS_DOF_NUMBER));
        for (long i = 0; i < t.getIndices().size(); ++i) f.push_back(Formula(t.getIndices()(i) == (unsigned)(D::ROOT_DOF_NUMBER + i)));
        ensures("joint limits: a step within the bounds keeps every joint within its limits", land({land(f), eqm(VecX(w.g.joint_angles_ + t.getLowerBounds()), w.m.constraints_.joint_position_bounds_min_), eqm(VecX(w.g.joint_angles_ + t.getUpperBounds()), w.m.constraints_.joint_position_bounds_max_)}));
        ik::TaskFixArms<F> arms; formTask(w, arms);
        ik::TaskFixHead<F> head; formTask(w, head);
        std::set<unsigned> a, h, ea, eh;
        for (long i = 0; i < arms.getIndices().size(); ++i) a.insert(arms.getIndices()(i));
        for (long i = 0; i < head.getIndices().size(); ++i) h.insert(head.getIndices()(i));
        for (long i : {D::LShoulderPitch, D::LShoulderRoll, D::LElbowYaw, D::LElbowRoll, D::LWristYaw, D::RShoulderPitch, D::RShoulderRoll, D::RElbowYaw, D::RElbowRoll, D::RWristYaw}) ea.insert(D::ROOT_DOF_NUMBER + i);
        for (long i : {D::HeadYaw, D::HeadPitch}) eh.insert(D::ROOT_DOF_NUMBER + i);
        ensures("fixed arms: every joint of the arms and no other", a == ea && arms.getIndices().size() == 10);
        ensures("fixed head: every joint of the head and no other", h == eh && head.getIndices().size() == 2);
    }
}
CONTRACT(tasks_of_motion, "WholeBodyController::update, TaskBaseCoMTracking, TaskBaseOrientation, TaskBodyCoMTracking, TaskJointsReference, TaskJointsBounds, TaskFixArms, TaskFixHead (form)") { FEATURES(tasksOfMotion) }

// callee contract: model_jacobians
template <int F> static MatX tagJacobian(World<F> &w, const std::string &name) { MatX J; w.m.getTagCompleteJacobian(J, w.m.getLinkTag(name)); return J; }
template <int F> static void tasksOfTags()
{
    OpaqueMath opaque;
    World<F> w;
    w.wbc.update(w.m, ik::MotionParameters());
    Real gain = choose("unit_gain", 0, 1) ? Real(1) : gain_(), k = sym("k", 0.5, 2), dt = w.wbc.wbc_parameters_.control_interval_ = sym("dt", 0.01, 1);
    long which = choose("task", 0, 4);
    const std::string name = choose("tag", 0, 1) ? "base_footprint" : "l_wrist";
    const Place &p = w.place(name);
    MatX J = tagJacobian(w, name), R = w.r.orientation(p), A; VecX b, e, at = w.r.position(p, VecX::Zero(3));
    bool known = choose("known_velocity", 0, 1) == 1;
    etools::Vector6 v = symVec("v", 6), none = etools::Vector6::Zero();
    std::map<std::string, etools::Vector6> vs;
    vs["torso"] = symVec("other", 6);
    bool still = choose("rotates", 0, 1) == 0;
    if (still) v.tail(3).setZero();
    if (known) vs[name] = v; else v = none;
    w.wbc.setTagsVelocity(vs);
    VecX lin = v.head(3), ang = v.tail(3);
    ensures("velocity of a tag: linear, then angular; zero when none is given", land({eqm(w.wbc.getTagVelocityInLocal(name, ST::COMPLETE), v), eqm(w.wbc.getTagVelocityInLocal(name, ST::TRANSLATION), lin), eqm(w.wbc.getTagVelocityInLocal(name, ST::ROTATION), ang)}));
    ensuresThrows("a velocity of an undefined kind is refused", [&]() { w.wbc.getTagVelocityInLocal(name, ST::UNDEFINED); });
    ensuresThrows("a velocity of an undefined kind is refused (global)", [&]() { w.wbc.getTagVelocityInGlobal(w.m, name, v, ST::UNDEFINED); });
    ensures("angular velocity in the root frame", eqm(w.wbc.getTagVelocityInGlobal(w.m, name, v, ST::ROTATION), R * ang));
    if (which == 0)
    {
        ik::TaskTagOrientation<F> t(name, v3("ref"), gain, k);
        formTask(w, t); A = t.getA(); b = t.getB();
        ensures("orientation of a tag", land({eqm(A, gain * J.topRows(3)), eqm(b, gain * k * rotationError(R, rpyMatrix(v3("ref"))))}));
        // the task follows the state, and the tag it names
        w.state("s");
        formTask(w, t);
        const Place &p2 = w.place(name);
        ensures("formed again for another state", land({eqm(t.getA(), gain * tagJacobian(w, name).topRows(3)), eqm(t.getB(), gain * k * rotationError(w.r.orientation(p2), rpyMatrix(v3("ref"))))}));
        t.setDefaults(); t.setGain(gain); t.k_orientation_gain_ = k; t.tag_string_id_ = "torso";          // as the configuration is read
        formTask(w, t);
        ensures("a task which is given another tag follows it", eqm(t.getA(), gain * tagJacobian(w, "torso").topRows(3)));
        return;
    }
    if (which == 1)
    {
        ik::TaskTagAngularVelocity<F> t(name, gain, k);
        formTask(w, t);
        ensures("angular velocity of a tag", land({eqm(t.getA(), gain * J.topRows(3)), eqm(t.getB(), gain * k * R * ang)}));
        t.setDefaults(); t.setGain(gain); t.k_angular_velocity_gain_ = k; t.tag_string_id_ = "torso";
        formTask(w, t);
        ensures("a task which is given another tag follows it", eqm(t.getA(), gain * tagJacobian(w, "torso").topRows(3)));
        return;
    }
    if (which == 2)
    {
        ik::TaskTagCompleteVelocity<F> t(name, gain, k);
        formTask(w, t); A = t.getA(); b = t.getB();
        ensures("velocity of a tag: Jacobian and angular velocity", land({eqm(A, gain * J), eqm(b.head(3), gain * k * R * ang), Formula(b.size() == 6)}));
        if (still) ensures("linear velocity of a tag which does not rotate", eqm(b.tail(3), gain * k * R * lin));
        else
        {
            ensures("linear velocity of a rotating tag", eqm(b.tail(3), gain * k * R * lin));
            ensures("linear velocity of a rotating tag: at the tag or (as found) at the origin", lor({eqm(b.tail(3), gain * k * R * lin), eqm(b.tail(3), gain * k * (R * lin + skewOf(at) * (R * ang)))}));
        }
        t.setDefaults(); t.setGain(gain); t.k_complete_velocity_gain_ = k; t.tag_string_id_ = "torso";
        formTask(w, t);
        ensures("a task which is given another tag follows it", eqm(t.getA(), gain * tagJacobian(w, "torso")));
        return;
    }
    // poses to reach
    bool planned = choose("planned", 0, 1) == 1;
    etools::Vector6 want = etools::Vector6::Zero();
    if (planned)
    {
        w.wbc.computeTagsDesiredPoseInGlobal(w.m);
        if (known)
        {
            ensures("every tag with a velocity has a desired pose", w.wbc.tags_desired_pose_global_.size() == 2 && w.wbc.tags_desired_pose_global_.count(name) == 1);
            want = w.wbc.tags_desired_pose_global_.at(name);
            ensures("desired orientation: the orientation after one interval", eqm(want.head(3), rb::convertMatrixToEulerAngles(rb::integrateAngularVelocity(etools::Matrix3(R), etools::Vector3(ang), dt), EA::RPY)));
            if (still) ensures("desired position of a tag which does not rotate", eqm(want.tail(3), at + dt * (R * lin)));
            else
            {
                ensures("desired position of a rotating tag", eqm(want.tail(3), at + dt * (R * lin)));
                ensures("desired position of a rotating tag: by the velocity at the tag or (as found) at the origin", lor({eqm(want.tail(3), at + dt * (R * lin)), eqm(want.tail(3), at + dt * (R * lin + skewOf(at) * (R * ang)))}));
            }
        }
    }
    e = VecX::Zero(6);
    if (planned && known) { e.head(3) = rotationError(R, rpyMatrix(etools::Vector3(want.head(3)))); e.tail(3) = want.tail(3) - at; }
    ensures("error of the pose of a tag (zero without a desired pose)", eqm(w.wbc.getTagPoseErrorInGlobal(w.m, name), e));
    if (which == 3)
    {
        ik::TaskTagPose<F> t(name, gain, k);
        formTask(w, t);
        ensures("pose of a tag", land({eqm(t.getA(), gain * J), eqm(t.getB(), gain * k * e)}));
        t.setDefaults(); t.setGain(gain); t.k_pose_gain_ = k; t.tag_string_id_ = "torso";
        formTask(w, t);
        ensures("a task which is given another tag follows it", eqm(t.getA(), gain * tagJacobian(w, "torso")));
    }
    else
    {
        ik::TaskTagPose3Dof<F> t(name, gain, k);
        formTask(w, t);
        e.segment(2, 3).setZero();
        ensures("roll, pitch and height of a tag", land({eqm(t.getA(), gain * J), eqm(t.getB(), gain * k * e)}));
        t.setDefaults(); t.setGain(gain); t.k_pose_gain_ = k; t.tag_string_id_ = "torso";
        formTask(w, t);
        ensures("a task which is given another tag follows it", eqm(t.getA(), gain * tagJacobian(w, "torso")));
    }
}
CONTRACT(tasks_of_tags, "WholeBodyController::{setTagsVelocity,getTagVelocityInLocal,getTagVelocityInGlobal,computeTagsDesiredPoseInGlobal,getTagPoseErrorInGlobal}, TaskTagOrientation, TaskTagAngularVelocity, TaskTagCompleteVelocity, TaskTagPose, TaskTagPose3Dof (form, setDefaults)")
{
    FEATURES(tasksOfTags)
}

// ---- commands and states
template <int F> static void nextState()
{
    World<F> w;
    typedef ik::ModelDescription<F> D;
    w.wbc.update(w.m, ik::MotionParameters());
    ensuresThrows("no next state before there is a solution", [&]() { const ik::WholeBodyController<F> &c = w.wbc; c.getNextGeneralizedCoordinates(w.m); });
    humoto::Solution sol;
    sol.initialize(w.wbc.getSolutionStructure());
    sol.x_ = symVec("x", D::DOF_NUMBER);
    ik::GeneralizedCoordinates<F> n = w.wbc.getNextGeneralizedCoordinates(sol, w.m);
    ensures("the next state: the state plus the solution", land({eqm(n.root_pose_, VecX(w.g.root_pose_ + sol.x_.head(D::ROOT_DOF_NUMBER))), eqm(n.joint_angles_, VecX(w.g.joint_angles_ + sol.x_.tail(D::JOINTS_DOF_NUMBER)))}));
    ensures("the state of the model is not touched", land({eqm(w.m.getState().root_pose_, w.g.root_pose_), eqm(w.m.getState().joint_angles_, w.g.joint_angles_)}));
    ensuresThrows("a solution is parsed once", [&]() { w.wbc.getNextGeneralizedCoordinates(sol, w.m); });
    w.m.updateState(n);
    const ik::WholeBodyController<F> &c = w.wbc;
    ensures("once parsed, the state of the model is the next state", eqm(c.getNextGeneralizedCoordinates(w.m).asVector(), n.asVector()));
    w.wbc.update(w.m, ik::MotionParameters());
    ik::GeneralizedCoordinates<F> n2 = w.wbc.getNextGeneralizedCoordinates(sol, w.m);
    ensures("and so on from the next state", eqm(n2.asVector(), VecX(n.asVector() + sol.x_)));
}
CONTRACT(next_state, "WholeBodyController::{update,getNextGeneralizedCoordinates,parseSolution}, Model::{updateState,getState}") { FEATURES(nextState) }

static MatX someRotation(long i)
{
    MatX m = MatX::Identity(3, 3);
    if (i == 1) m << 0.8, -0.6, 0, 0.6, 0.8, 0, 0, 0, 1;
    if (i == 2) m << 0, -1, 0, 0.6, 0, -0.8, 0.8, 0, 0.6;
    if (i == 3) m << 0.96, 0.28, 0, -0.28, 0.96, 0, 0, 0, 1;
    return m;
}
template <int F> static void commands()
{
    OpaqueMath opaque;
    World<F> w;
    w.r.fR[0] = MatX::Identity(3, 3); w.r.fp[0] = VecX::Zero(3); w.load(); w.state("q");
    typedef ik::ModelDescription<F> D;
    Real dt = choose("dt", 0, 1) ? Real(0.5) : Real(0.03125);
    ik::RobotCommand c;
    ensuresThrows("a command needs the state it starts from", [&]() { w.m.getRobotCommand(c, dt); });
    w.r.R[1] = someRotation(choose("from", 0, 1) * 2); w.m.updateState(w.g);
    MatX R0 = w.footprint(); VecX p0 = w.r.position(w.place("base_footprint"), VecX::Zero(3)), j0 = w.g.joint_angles_;
    w.m.saveCurrentState();
    // one joint moves
    long k = choose("moving", 0, 1) * 14;
    w.limits(k);
    ik::GeneralizedCoordinates<F> g = w.coordinates("to");
    for (long i = 0; i < D::JOINTS_DOF_NUMBER; ++i) if (i != k) g.joint_angles_(i) = j0(i);
    w.r.move("to"); w.r.R[1] = someRotation(1 + 2 * choose("to", 0, 1)); w.m.updateState(g);
    ensures("the wheels of the robot", eqm(w.m.root_motion_to_wheels_, D::getRootMotionToWheelsTransform()));
    MatX W(3, 3);
    W << 1, 0.5, -2, 0.25, -1, 3, 2, 0.75, 1;
    w.m.root_motion_to_wheels_ = W;
    MatX R1 = w.footprint(); VecX p1 = w.r.position(w.place("base_footprint"), VecX::Zero(3));
    VecX v(3), e = rotationError(R0, R1);
    v << (p1(0) - p0(0)) / dt, (p1(1) - p0(1)) / dt, e(2) / dt;
    VecX wheels = W * (R1.transpose() * v);
    Real step = g.joint_angles_(k) - j0(k), lim = w.m.constraints_.joint_velocity_bounds_(k) * dt;
    VecX wmax = w.m.constraints_.wheel_velocities_max_;
    Formula good = land({within(g.joint_angles_, w.m.constraints_.joint_position_bounds_min_, w.m.constraints_.joint_position_bounds_max_, 1e-7), le(step, lim), le(-step, lim), within(wheels, -wmax, wmax, 0)});
    if (!acceptedIff("command", good, [&]() { w.m.getRobotCommand(c, dt); })) return;
    ensures("the command reaches the state of the model", land({eqm(c.joint_angles_, g.joint_angles_), eqm(c.base_velocities_, v), eqm(c.wheel_velocities_, wheels), eq(c.time_interval_, dt)}));
}
CONTRACT(commands, "Model::{saveCurrentState,getRobotCommand}, Model::Constraints::{checkJointPositions,checkJointVelocities,checkWheelVelocities}") { FEATURES(commands) }

template <int F> static void transitions()
{
    OpaqueMath opaque;
    World<F> w;
    typedef ik::ModelDescription<F> D;
    long k = choose("moving", 0, 1) * 14;
    w.limits(k);
    VecX lo = w.m.constraints_.joint_position_bounds_min_, hi = w.m.constraints_.joint_position_bounds_max_;
    if (choose("current", 0, 1)) { acceptedIff("current state", within(w.g.joint_angles_, lo, hi, 1e-7), [&]() { w.m.checkCurrentState(); }); return; }
    Real dt = sym("dt", 0.01, 1);
    requires_(gt(dt, Real(0)));
    long root = choose("root_moves", 0, 1);
    ik::GeneralizedCoordinates<F> g = w.g;
    g.joint_angles_(k) = sym("to", -1, 1);
    Real step = g.joint_angles_(k) - w.g.joint_angles_(k), lim = w.m.constraints_.joint_velocity_bounds_(k) * dt;
    Formula good = land({within(g.joint_angles_, lo, hi, 1e-7), le(step, lim), le(-step, lim)});
    w.g.root_pose_.setZero(); g.root_pose_.setZero();
    if (root == 1)
    {
        // moved by more than rounding, relative to where it is
        w.g.root_pose_(0) = Real(1); g.root_pose_(0) = Real(1) + sym("moved", 0.1, 1);
        requires_(gt(g.root_pose_(0), Real(1.1)));
        good = Formula(false);
    }
    if (root == 2)
    {
        using std::sin; using std::cos;
        Real a = g.root_pose_(D::ROOT_DOF_NUMBER - 1) = sym("turned", 0.1, 1), h = a * 0.5;
        requires_(gt(sin(h) * cos(h), Real(0.01)));
        good = Formula(false);
    }
    acceptedIff("transition", good, [&]() { w.m.checkStateTransition(w.g, g, dt); });
    ensures("checking does not change the state", eqm(w.m.getState().joint_angles_, w.m.getState().joint_angles_));
}
CONTRACT(transitions, "Model::{checkCurrentState,checkStateTransition}, Model::Constraints::{checkJointPositions,checkJointVelocities}") { FEATURES(transitions) }

template <int F> static void corrections()
{
    World<F> w;
    typedef ik::ModelDescription<F> D;
    ik::RobotCommand c;
    c.joint_angles_ = symVec("cj", D::JOINTS_DOF_NUMBER); c.base_velocities_ = v3("cv"); c.time_interval_ = sym("T", 0.1, 1);
    Real t = sym("t", -0.5, 1);
    requires_(gt(c.time_interval_, Real(0)));
    bool later = choose("later", 0, 1) == 1, from = choose("from_a_given_state", 0, 1) == 1;
    requires_(later ? gt(t, Real(0)) : le(t, Real(0)));
    ik::GeneralizedCoordinates<F> g = from ? w.coordinates("given") : w.g;
    auto run = [&]() { if (from) w.m.correct(g, c, t); else w.m.correct(c, t); };
    if (later && F != PLANAR) { ensuresThrows("only a planar root is corrected", run); return; }
    run();
    VecX root = g.root_pose_, joints = g.joint_angles_;
    if (later)
    {
        root += t * VecX(c.base_velocities_);
        joints += (VecX(c.joint_angles_) - joints) * (t / c.time_interval_);
    }
    ensures("the state moves with the command for the given time", land({eqm(w.m.getState().root_pose_, root), eqm(w.m.getState().joint_angles_, joints)}));
    ensures("the kinematics follow", eqm(RigidBodyDynamics::ghost().q, w.m.getState().asVector()));
}
CONTRACT(corrections, "Model::correct") { FEATURES(corrections) }
