// Arbitrary robots (trees of joints with arbitrary poses, motion subspaces and masses) and their kinematics by definition.
#pragma once
#include "vp_eigen.h"
namespace boost { namespace math { inline bool isnan(const vp::Real &x) { return vp::concreteMode() ? x != x : false; } } }
#ifndef VP_CONCRETE
// assumed of Eigen: the Euler angles are a function of the matrix and the sequence of axes
inline bool isIdentityMatrix(const std::vector<vp::NodeP> &m)
{
    for (size_t i = 0; i < 9; ++i) if (m[i] != vp::Real(i % 4 ? 0 : 1).node()) return false;
    return true;
}
namespace Eigen
{
    template <> inline Matrix<vp::Real, 3, 1> MatrixBase<Matrix<vp::Real, 3, 3> >::eulerAngles(Index a, Index b, Index c) const
    {
        std::vector<vp::NodeP> in;
        for (Index i = 0; i < 3; ++i) for (Index j = 0; j < 3; ++j) in.push_back(vp::Real(coeff(i, j)).node());
        std::string f = "euler" + std::to_string(a) + std::to_string(b) + std::to_string(c) + "_";
        Matrix<vp::Real, 3, 1> r;
        if (isIdentityMatrix(in)) { r.setZero(); return r; }
        for (Index i = 0; i < 3; ++i) r(i) = vp::Real(vp::mkUF(f + std::to_string(i), in, vp::Sort::Real));
        return r;
    }
}
#endif
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/rbdl.h"

namespace vp
{
    typedef humoto::rbdl::SpatialType ST;
    typedef RigidBodyDynamics::Math::SpatialTransform Transform;
    inline MatX elementaryRotation(long axis, const Real &a)
    {
        using std::sin; using std::cos;
        MatX m(3, 3); m.setZero();
        long i = (axis + 1) % 3, j = (axis + 2) % 3;
        m(axis, axis) = Real(1); m(i, i) = cos(a); m(j, j) = cos(a); m(i, j) = -sin(a); m(j, i) = sin(a);
        return m;
    }
    inline MatX skewOf(const VecX &v) { MatX m(3, 3); m << Real(0), -v(2), v(1), v(2), Real(0), -v(0), -v(1), v(0), Real(0); return m; }
    struct Place { std::string name; long body, fixed; };           // a link: a movable body, or one fixed to it (fixed >= 0)
    struct Robot
    {
        long n, dofs;
        std::vector<long> parent, count, first, kind;               // of joints 1..n
        std::vector<MatX> R;  std::vector<VecX> p;                  // pose of each body in the root frame
        std::vector<MatX> S;                                        // motion subspace in the body frame (angular; linear)
        std::vector<Real> masses; std::vector<VecX> centres;
        std::vector<MatX> fR; std::vector<VecX> fp; std::vector<long> fbody;        // fixed links, in the frame of their body
        std::vector<Place> places;
        std::vector<RigidBodyDynamics::CustomJoint> custom;
        // a rotation: a product of elementary rotations, every rotation has this form
        // (proved over arbitrary matrices, executed over rotations)
        bool any_matrix = false;
        MatX rotation(const std::string &s) { if (any_matrix && !concreteMode()) return symMat(s + "R", 3, 3); VecX e = symVec(s, 3, -1, 1); return elementaryRotation(2, e(2)) * elementaryRotation(1, e(1)) * elementaryRotation(0, e(0)); }
        void choose_(const std::string &id, long joints, bool fixed, bool plain = false, bool matrices = false)
        {
            n = joints;
            any_matrix = matrices;
            dofs = 0;
            parent.assign(1, 0); count.assign(1, 0); first.assign(1, 0); kind.assign(1, 0);
            S.assign(1, MatX()); masses.assign(1, sym(id + "m0", 1, 2)); centres.assign(1, VecX(symVec(id + "c0", 3)));
            std::vector<Formula> f;
            for (long i = 1; i <= n; ++i)
            {
                parent.push_back(plain ? (i > 1) : choose(idx(id + "parent", i), 0, i - 1));
                kind.push_back(plain ? 0 : choose(idx(id + "kind", i), 0, 2));
                count.push_back(kind[i] == 0 ? 1 : kind[i] == 1 ? 3 : 2);
                first.push_back(dofs);
                dofs += count[i];
                S.push_back(symMat(idx(id + "S", i), 6, count[i]));
                masses.push_back(sym(idx(id + "m", i), 0.5, 2)); centres.push_back(symVec(idx(id + "c", i), 3));
                f.push_back(gt(masses[i], Real(0)));
                places.push_back(Place{idx("body", i), i, -1});
            }
            requires_(land(f));
            if (fixed)
            {
                long b = plain ? 1 : choose(id + "fixed_to", 1, n);
                fR.push_back(rotation(id + "fe")); fp.push_back(symVec(id + "fp", 3)); fbody.push_back(b);
                places.push_back(Place{"attached", b, 0});
            }
            move(id);
        }
        void move(const std::string &id)
        {
            R.assign(1, MatX(MatX::Identity(3, 3))); p.assign(1, VecX(VecX::Zero(3)));
            for (long i = 1; i <= n; ++i) { R.push_back(rotation(idx(id + "e", i))); p.push_back(symVec(idx(id + "p", i), 3)); }
        }
        void poses(RigidBodyDynamics::Model &m)
        {
            for (long i = 0; i <= n; ++i) { m.X_base[i].E = R[i].transpose(); m.X_base[i].r = p[i]; }
        }
        void install()
        {
            custom.assign(n + 1, RigidBodyDynamics::CustomJoint());
            RigidBodyDynamics::ghost().kinematics = [this](RigidBodyDynamics::Model &m, const RigidBodyDynamics::Math::VectorNd &) { poses(m); };
            RigidBodyDynamics::ghost().read = [this](RigidBodyDynamics::Model &m, const std::string &, bool)
            {
                m = RigidBodyDynamics::Model();
                m.X_base.resize(n + 1); m.S.resize(n + 1); m.multdof3_S.resize(n + 1); m.mJoints.resize(n + 1); m.mBodies.resize(n + 1); m.lambda.resize(n + 1);
                m.q_size = m.qdot_size = m.dof_count = dofs;
                for (long i = 0; i <= n; ++i)
                {
                    m.lambda[i] = parent[i]; m.mBodies[i].mMass = masses[i]; m.mBodies[i].mCenterOfMass = centres[i];
                    m.S[i].setZero(); m.multdof3_S[i].setZero();
                    if (!i) continue;
                    m.mJoints[i].mDoFCount = count[i]; m.mJoints[i].q_index = first[i];
                    m.mJoints[i].mJointType = kind[i] == 0 ? RigidBodyDynamics::JointTypeRevolute : kind[i] == 1 ? RigidBodyDynamics::JointTypeEulerZYX : RigidBodyDynamics::JointTypeCustom;
                    if (kind[i] == 0) m.S[i] = S[i];
                    else if (kind[i] == 1) m.multdof3_S[i] = S[i];
                    else { m.mJoints[i].custom_joint_index = m.mCustomJoints.size(); custom[i].mDoFCount = count[i]; custom[i].S = S[i]; m.mCustomJoints.push_back(&custom[i]); }
                }
                for (size_t k = 0; k < fR.size(); ++k)
                {
                    RigidBodyDynamics::FixedBody b;
                    b.mMovableParent = fbody[k]; b.mParentTransform.E = fR[k].transpose(); b.mParentTransform.r = fp[k];
                    m.mFixedBodies.push_back(b);
                }
                for (auto &w : places) m.mBodyNameMap[w.name] = w.fixed < 0 ? w.body : m.fixed_body_discriminator + w.fixed;
                return true;
            };
        }
        void load(humoto::rbdl::Model &m, bool floating)
        {
            RigidBodyDynamics::ghost() = RigidBodyDynamics::Ghost();
            install();
            humoto::rbdl::ModelParameters par;
            par.floating_base_ = floating;
            m.load(par, "robot.urdf");
        }
        // ---- kinematics by definition
        MatX orientation(const Place &w) const { return w.fixed < 0 ? R[w.body] : MatX(R[w.body] * fR[w.fixed]); }
        VecX position(const Place &w, const VecX &local) const
        {
            VecX l = w.fixed < 0 ? local : VecX(fp[w.fixed] + fR[w.fixed] * local);
            return p[w.body] + R[w.body] * l;
        }
        // column j: the velocity of the point (angular, linear, in the root frame) when coordinate j moves with velocity 1:
        // every body behind the joint moves with the twist of the joint about the joint's own frame
        MatX jacobian(const Place &w, const VecX &local) const
        {
            MatX J(6, dofs);
            J.setZero();
            VecX at = position(w, local);
            for (long i = w.body; i != 0; i = parent[i])
            {
                MatX ang = R[i] * S[i].topRows(3), lin = R[i] * S[i].bottomRows(3);
                VecX d = at - p[i];
                J.block(0, first[i], 3, count[i]) = ang;
                J.block(3, first[i], 3, count[i]) = lin - skewOf(d) * ang;
            }
            return J;
        }
        Real mass(const std::vector<long> &ids) const { Real s(0); for (long i : ids) s = s + masses[i]; return s; }
        VecX moment(const std::vector<long> &ids) const { VecX s = VecX::Zero(3); for (long i : ids) s += masses[i] * position(places[i - 1], centres[i]); return s; }
        MatX momentJacobian(const std::vector<long> &ids) const { MatX s = MatX::Zero(3, dofs); for (long i : ids) s += masses[i] * jacobian(places[i - 1], centres[i]).bottomRows(3); return s; }
    };
}
