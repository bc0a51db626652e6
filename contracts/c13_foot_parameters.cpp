// PROPERTY C13
#include "vp_eigen.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
using namespace vp;
typedef humoto::walking::FootBoundsType FB;
typedef humoto::LeftOrRight LR;

struct P : public humoto::walking::RobotFootParameters
{
    Real step, dmin, dmax, dist, len, width;
};
static void make(P &f)
{
    f.step = sym("max_step_len", 0, 1); f.dmin = sym("min_feet_dist", 0, 1); f.dmax = sym("max_feet_dist", 0, 1);
    f.dist = sym("feet_dist_default", 0, 1); f.len = sym("foot_length", 0, 1); f.width = sym("foot_width", 0, 1);
    f.max_step_len_ = f.step; f.min_feet_dist_ = f.dmin; f.max_feet_dist_ = f.dmax; f.feet_dist_default_ = f.dist; f.foot_length_ = f.len; f.foot_width_ = f.width;
    f.finalize();
}
static MatX mirror(const MatX &b)      // reflection y -> -y of a box [lower, upper]
{
    MatX m = b;
    m(1, 0) = -b(1, 1); m(1, 1) = -b(1, 0);
    return m;
}
static MatX box(const Real &a, const Real &b, const Real &c, const Real &d) { MatX m(2, 2); m << a, b, c, d; return m; }

CONTRACT(foot_bounds, "RobotFootParameters::{finalize,getFootBounds}")
{
    P f; make(f);
    const FB::Type kinds[] = {FB::WITH_RESPECT_TO_ADS, FB::WITH_RESPECT_TO_SS, FB::ALIGNED_TO_SS};
    FB::Type k = kinds[choose("kind", 0, 2)];
    MatX l = f.getFootBounds(LR::LEFT, k), r = f.getFootBounds(LR::RIGHT, k);
    ensures("the right foot mirrors the left one", eqm(r, mirror(l)));
    if (k == FB::WITH_RESPECT_TO_SS) ensures("reachable region", eqm(l, box(-f.step, f.step, f.dmin, f.dmax)));
    else ensures("fixed position", eqm(l, box(Real(0), Real(0), f.dist / Real(2), f.dist / Real(2))));
    requires_(land({ge(f.step, Real(0)), le(f.dmin, f.dmax)}));
    for (long i = 0; i < 2; ++i) ensures("lower bounds do not exceed upper bounds", land({le(l(i, 0), l(i, 1)), le(r(i, 0), r(i, 1))}));
    ensuresThrows("undefined bounds are refused", [&]() { f.getFootBounds(LR::LEFT, FB::UNDEFINED); });
    ensuresThrows("neither left nor right is refused", [&]() { f.getFootBounds(LR::UNDEFINED, FB::WITH_RESPECT_TO_SS); });
}
CONTRACT(cop_bounds, "RobotFootParameters::{getSSCoPBounds,getADSCoPBounds}")
{
    P f; make(f);
    MatX s = f.getSSCoPBounds(), d = f.getADSCoPBounds();
    Real h = f.len / Real(2), w = f.width / Real(2), tw = (f.width + f.dist) / Real(2);
    ensures("single support: the sole", eqm(s, box(-h, h, -w, w)));
    ensures("double support: from the outer edge of one foot to the outer edge of the other", eqm(d, box(-h, h, -tw, tw)));
    ensures("symmetric", land({eqm(s, mirror(s)), eqm(d, mirror(d))}));
}
CONTRACT(aligned_double_support, "RobotFootParameters::{getFootPositionFromADS,getADSPositionFromFoot}")
{
    P f; make(f);
    Real c = sym("c"), s = sym("s");
    etools::Matrix2 R; R << c, -s, s, c;
    etools::Vector2 p = symVec("p", 2);
    LR::Type side = choose("right", 0, 1) ? LR::RIGHT : LR::LEFT;
    Real y = (side == LR::LEFT ? Real(1) : Real(-1)) * f.dist / Real(2);
    VecX o(2); o << Real(0), y;
    ensures("foot in the double support frame", eqm(f.getFootPositionFromADS(side, R, p), p + R * o));
    ensures("double support from a foot", eqm(f.getADSPositionFromFoot(side, R, p), p - R * o));
    etools::Vector2 ads = f.getADSPositionFromFoot(side, R, p);
    ensures("there and back", eqm(f.getFootPositionFromADS(side, R, ads), p));
    etools::Vector2 other = f.getFootPositionFromADS(LR::invert(side), R, ads);
    VecX dlt = other - p;
    ensures("the feet are the default distance apart", eqm(dlt, R * (Real(-2) * o)));
    Real dd = dlt.squaredNorm();
    requires_(eq(c * c + s * s, Real(1)));
    ensures("default distance", eq(dd, f.dist * f.dist));
}
CONTRACT(left_right, "LeftOrRight::invert, LeftRightContainer::{operator[],getLeft,getRight,setLeft,setRight,copyLeft,copyRight}")
{
    ensures("inversion", LR::invert(LR::LEFT) == LR::RIGHT && LR::invert(LR::RIGHT) == LR::LEFT);
    ensuresThrows("undefined cannot be inverted", []() { LR::invert(LR::UNDEFINED); });
    humoto::LeftRightContainer<Real> c, d;
    Real l = sym("l"), r = sym("r"), l2 = sym("l2"), r2 = sym("r2");
    c.setLeft(l); c.setRight(r); d[LR::LEFT] = l2; d[LR::RIGHT] = r2;
    const humoto::LeftRightContainer<Real> &cc = c;
    ensures("sides are separate", land({eq(c.getLeft(), l), eq(c.getRight(), r), eq(cc[LR::LEFT], l), eq(cc[LR::RIGHT], r), eq(cc.getLeft(), l), eq(cc.getRight(), r)}));
    c.copyLeft(d);
    ensures("copy of the left side", land({eq(c.getLeft(), l2), eq(c.getRight(), r)}));
    c.setLeft(l);
    c.copyRight(d);
    ensures("copy of the right side", land({eq(c.getLeft(), l), eq(c.getRight(), r2)}));
    ensuresThrows("undefined side is refused", [&]() { c[LR::UNDEFINED]; });
}
