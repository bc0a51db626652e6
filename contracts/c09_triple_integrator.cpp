// PROPERTY C09
#include "vp_eigen.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
using namespace vp;
typedef humoto::rigidbody::TripleIntegrator TI;

// the exact motion under constant jerk: position, velocity, acceleration after time t, axis by axis
static VecX evolve(const VecX &x, const VecX &j, const Real &t)
{
    VecX r(x.size());
    for (long i = 0; i < j.size(); ++i)
    {
        Real p = x(3 * i), v = x(3 * i + 1), a = x(3 * i + 2);
        r(3 * i) = p + t * v + t * t * a / Real(2) + t * t * t * j(i) / Real(6);
        r(3 * i + 1) = v + t * a + t * t * j(i) / Real(2);
        r(3 * i + 2) = a + t * j(i);
    }
    return r;
}
enum Control { JERK, ACC, VEL, POS };
// the jerk that brings the controlled quantity to u at time T
static VecX jerkFor(Control c, const VecX &x, const VecX &u, const Real &T)
{
    VecX j(u.size());
    for (long i = 0; i < j.size(); ++i)
    {
        Real p = x(3 * i), v = x(3 * i + 1), a = x(3 * i + 2);
        if (c == JERK) j(i) = u(i);
        else if (c == ACC) j(i) = (u(i) - a) / T;
        else if (c == VEL) j(i) = Real(2) * (u(i) - v - T * a) / (T * T);
        else j(i) = Real(6) * (u(i) - p - T * v - T * T * a / Real(2)) / (T * T * T);
    }
    return j;
}
template <int n> static void fullStep(Control c)
{
    Real T = sym("T", 0.01, 3);
    requires_(gt(T, Real(0)));
    VecX x = symVec("x", 3 * n), u = symVec("u", n), j = jerkFor(c, x, u, T);
    MatX A, B;
    if (c == JERK) { A = TI::getAJerk<n>(T); B = TI::getBJerk<n>(T); }
    if (c == ACC) { A = TI::getAAcc<n>(T); B = TI::getBAcc<n>(T); }
    if (c == VEL) { A = TI::getAVel<n>(T); B = TI::getBVel<n>(T); }
    if (c == POS) { A = TI::getAPos<n>(T); B = TI::getBPos<n>(T); }
    VecX y = A * x + B * u;
    ensures("one step is the exact motion", eqm(y, evolve(x, j, T)));
    for (long i = 0; i < n; ++i)
        if (c != JERK) ensures("the controlled quantity reaches the control", eq(y(3 * i + (c == ACC ? 2 : c == VEL ? 1 : 0)), u(i)));
    if (c == JERK) return;
    MatX D, E;
    if (c == ACC) { D = TI::getDAcc<n>(T); E = TI::getEAcc<n>(T); }
    if (c == VEL) { D = TI::getDVel<n>(T); E = TI::getEVel<n>(T); }
    if (c == POS) { D = TI::getDPos<n>(T); E = TI::getEPos<n>(T); }
    ensures("the output is the jerk", eqm(D * x + E * u, j));
}
template <int n> static void subSample(Control c)
{
    Real T = sym("T", 0.01, 3), Ts = sym("Ts", 0, 3);
    requires_(gt(T, Real(0)));
    VecX x = symVec("x", 3 * n), u = symVec("u", n), j = jerkFor(c, x, u, T);
    MatX A, B;
    if (c == ACC) { A = TI::getAsAcc<n>(T, Ts); B = TI::getBsAcc<n>(T, Ts); }
    if (c == VEL) { A = TI::getAsVel<n>(T, Ts); B = TI::getBsVel<n>(T, Ts); }
    if (c == POS) { A = TI::getAsPos<n>(T, Ts); B = TI::getBsPos<n>(T, Ts); }
    ensures("the state at any instant of the step", eqm(A * x + B * u, evolve(x, j, Ts)));
}
CONTRACT(full_step, "TripleIntegrator::{getAJerk,getAAcc,getAVel,getAPos,getBJerk,getBAcc,getBVel,getBPos,getDAcc,getDVel,getDPos,getEAcc,getEVel,getEPos}")
{
    Control c = (Control)choose("control", 0, 3);
    long n = size("integrators", 1, 5, 7);
    if (n == 1) fullStep<1>(c); else if (n == 2) fullStep<2>(c); else fullStep<3>(c);
}
CONTRACT(sub_sampling, "TripleIntegrator::{getAsAcc,getAsVel,getAsPos,getBsAcc,getBsVel,getBsPos}")
{
    Control c = (Control)choose("control", 1, 3);
    long n = size("integrators", 1, 5, 7);
    if (n == 1) subSample<1>(c); else if (n == 2) subSample<2>(c); else subSample<3>(c);
}
template <int n> static void endOfStep(Control c)
{
    Real T = sym("T", 0.01, 3);
    requires_(gt(T, Real(0)));
    Formula a(true), b(true);
    if (c == ACC) { a = eqm(TI::getAsAcc<n>(T, T), TI::getAAcc<n>(T)); b = eqm(TI::getBsAcc<n>(T, T), TI::getBAcc<n>(T)); }
    if (c == VEL) { a = eqm(TI::getAsVel<n>(T, T), TI::getAVel<n>(T)); b = eqm(TI::getBsVel<n>(T, T), TI::getBVel<n>(T)); }
    if (c == POS) { a = eqm(TI::getAsPos<n>(T, T), TI::getAPos<n>(T)); b = eqm(TI::getBsPos<n>(T, T), TI::getBPos<n>(T)); }
    ensures("sub-sampling agrees with the step at its end", land({a, b}));
}
CONTRACT(end_of_step, "TripleIntegrator (full step against sub-sampling)")
{
    Control c = (Control)choose("control", 1, 3);
    long n = size("integrators", 1, 5, 8);
    if (n == 1) endOfStep<1>(c); else endOfStep<2>(c);
}
