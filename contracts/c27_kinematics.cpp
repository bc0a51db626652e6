// PROPERTY C27
// The RBDL bridge against the contract of the library it calls (third_party/rbdl: poses, joints and masses are arbitrary).
#include "kinematics_common.h"
using namespace vp;

static void expectTag(Robot &r, humoto::rbdl::Model &m, const Place &p, const VecX &local, bool point)
{
    humoto::rbdl::TagPointPtr pt = m.getPointTag(p.name, etools::Vector3(local));
    humoto::rbdl::TagLinkPtr lt = m.getLinkTag(p.name);
    VecX zero = VecX::Zero(3);
    MatX J, JR, JT;
    if (point)
    {
        ensures("position of a point of a link", eqm(m.getTagPosition(pt), r.position(p, local)));
        ensures("orientation of a point is that of its link", eqm(m.getTagOrientation(pt), r.orientation(p)));
        m.getTagJacobian<ST::COMPLETE>(J, pt); m.getTagJacobian<ST::ROTATION>(JR, pt); m.getTagJacobian<ST::TRANSLATION>(JT, pt);
    }
    else
    {
        ensures("position of a link", eqm(m.getTagPosition(lt), r.position(p, zero)));
        ensures("orientation of a link", eqm(m.getTagOrientation(lt), r.orientation(p)));
        m.getTagJacobian<ST::COMPLETE>(J, lt); m.getTagJacobian<ST::ROTATION>(JR, lt); m.getTagJacobian<ST::TRANSLATION>(JT, lt);
    }
    MatX s = r.jacobian(p, point ? local : zero);
    ensures("complete Jacobian: angular velocity, then velocity of the tag, per unit velocity of each coordinate", eqm(J, s));
    ensures("rotational Jacobian", eqm(JR, s.topRows(3)));
    ensures("translational Jacobian", eqm(JT, s.bottomRows(3)));
}
CONTRACT(tags, "rbdl::Model::{load,update,getDOFNumber,getLinkTag,getPointTag,getTagPosition,getTagOrientation,getTagJacobian (link, point)}, SpatialTransformWithoutRotation::*, SpatialType::getNumberOfElements")
{
    Robot r;
    r.choose_("", size("joints", 1, 3, 6), true);
    humoto::rbdl::Model m;
    r.load(m, false);
    VecX q = symVec("q", r.dofs);
    m.update(q);
    ensures("the coordinates reach the library", land({eqm(RigidBodyDynamics::ghost().q, q), Formula(RigidBodyDynamics::ghost().updates == 1), Formula(!RigidBodyDynamics::ghost().derivatives)}));
    ensures("number of degrees of freedom", (long)m.getDOFNumber() == r.dofs);
    const Place &p = r.places[choose("link", 0, (long)r.places.size() - 1)];
    expectTag(r, m, p, symVec("local", 3), choose("point", 0, 1) == 1);
}
CONTRACT(tags_after_another_update, "rbdl::Model::update, JointData::compute")
{
    Robot r;
    r.choose_("", 2, true);
    humoto::rbdl::Model m;
    r.load(m, false);
    m.update(symVec("q", r.dofs));
    r.move("second_");
    m.update(symVec("p", r.dofs));
    expectTag(r, m, r.places.back(), symVec("local", 3), true);
}
CONTRACT(poses, "rbdl::Model::getTagPose")
{
    OpaqueMath opaque;
    Robot r;
    r.choose_("", 2, true);
    humoto::rbdl::Model m;
    r.load(m, false);
    m.update(symVec("q", r.dofs));
    const Place &p = r.places[choose("link", 0, (long)r.places.size() - 1)];
    VecX local = symVec("local", 3);
    bool point = choose("point", 0, 1) == 1;
    humoto::rigidbody::RigidBodyPose pose = point ? m.getTagPose(m.getPointTag(p.name, etools::Vector3(local))) : m.getTagPose(m.getLinkTag(p.name));
    ensures("position of the pose", eqm(pose.position_, r.position(p, point ? local : VecX(VecX::Zero(3)))));
    ensures("angles of the pose", eqm(pose.rpy_, humoto::rigidbody::convertMatrixToEulerAngles(etools::Matrix3(r.orientation(p)), humoto::rigidbody::EulerAngles::RPY)));
}
CONTRACT(centre_of_mass, "rbdl::Model::{getCoMTag,getLinkCoMTag,getTagMass,getTagPosition,getTagJacobian (centres of mass)}")
{
    Robot r;
    r.choose_("", size("joints", 1, 2, 5), false);
    humoto::rbdl::Model m;
    r.load(m, false);
    m.update(symVec("q", r.dofs));
    // any non-empty set of movable links, in any order
    std::vector<std::string> names;
    std::vector<long> ids;
    for (long i = 1; i <= r.n; ++i) if (choose(idx("in", i), 0, 1)) { names.push_back(r.places[i - 1].name); ids.push_back(i); }
    if (ids.empty()) throw PathInfeasible();
    if (choose("reverse", 0, 1)) { std::reverse(names.begin(), names.end()); std::reverse(ids.begin(), ids.end()); }
    humoto::rbdl::TagPartialCoMPtr part = m.getCoMTag(names);
    humoto::rbdl::TagCoMPtr all = m.getCoMTag();
    std::vector<long> every;
    for (long i = 1; i <= r.n; ++i) every.push_back(i);
    ensures("mass of a set of links", eq(m.getTagMass(part), r.mass(ids)));
    ensures("mass of the robot", eq(m.getTagMass(all), r.mass(every)));
    ensures("centre of mass of a set of links", eqm(r.mass(ids) * VecX(m.getTagPosition(part)), r.moment(ids)));
    ensures("centre of mass of the robot", eqm(r.mass(every) * VecX(m.getTagPosition(all)), r.moment(every)));
    MatX J = symMat("stale", 2, 2), K = J;
    m.getTagJacobian(J, part); m.getTagJacobian(K, all);
    ensures("Jacobian of the centre of mass of a set of links", eqm(MatX(r.mass(ids) * J), r.momentJacobian(ids)));
    ensures("Jacobian of the centre of mass of the robot", eqm(MatX(r.mass(every) * K), r.momentJacobian(every)));
    long k = choose("one", 1, r.n);
    const Place &p = r.places[k - 1];
    ensures("mass of a link", eq(m.getTagMass(m.getLinkTag(p.name)), r.masses[k]));
    ensures("centre of mass of a link", eqm(m.getTagPosition(m.getLinkCoMTag(p.name)), r.position(p, r.centres[k])));
}
CONTRACT(loading, "rbdl::Model::{Model,load}, ModelParameters")
{
    Robot r;
    r.choose_("", 1, false);
    long way = choose("way", 0, 3);
    humoto::rbdl::ModelParameters par;
    ensures("a base floats by default", par.floating_base_);
    bool floating = choose("floating", 0, 1) == 1;
    par.floating_base_ = floating;
    RigidBodyDynamics::ghost() = RigidBodyDynamics::Ghost();
    r.install();
    if (way == 3)
    {
        RigidBodyDynamics::ghost().read = [](RigidBodyDynamics::Model &, const std::string &, bool) { return false; };
        ensuresThrows("a file which cannot be read is an error", [&]() { humoto::rbdl::Model m(par, "robot.urdf"); });
        ensuresThrows("a file which cannot be read is an error (load)", [&]() { humoto::rbdl::Model m; m.load("robot.urdf"); });
        return;
    }
    std::unique_ptr<humoto::rbdl::Model> m;
    if (way == 0) m.reset(new humoto::rbdl::Model("robot.urdf"));
    else if (way == 1) m.reset(new humoto::rbdl::Model(par, "robot.urdf"));
    else { m.reset(new humoto::rbdl::Model); m->load(par, "robot.urdf"); }
    ensures("the file and the kind of base reach the library", RigidBodyDynamics::ghost().file == "robot.urdf" && RigidBodyDynamics::ghost().floating == (way == 0 ? true : floating));
    std::vector<long> every(1, 1);
    ensures("total mass", eq(m->getTagMass(m->getCoMTag()), r.mass(every)));
    ensures("number of elements of velocities", ST::getNumberOfElements(ST::COMPLETE) == 6 && ST::getNumberOfElements(ST::ROTATION) == 3 && ST::getNumberOfElements(ST::TRANSLATION) == 3);
    ensuresThrows("an undefined velocity has no elements", []() { ST::getNumberOfElements(ST::UNDEFINED); });
}
