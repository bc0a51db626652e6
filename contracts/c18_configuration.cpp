// PROPERTY C18
#include "config_common.h"
using namespace vp;
VP_OPTIONAL_MEMBER(sampling_time_)
VP_OPTIONAL_MEMBER(subsampling_time_)
VP_OPTIONAL_MEMBER(tds_sampling_time_)
VP_OPTIONAL_MEMBER(subsamples_num_)
VP_OPTIONAL_MEMBER(tds_subsamples_num_)
VP_OPTIONAL_MEMBER(is_modified_)
typedef humoto::walking::StanceType ST;

// integers: boundaries of the representations in the file
static std::size_t uint_(long k, long i) { static const std::size_t v[] = {0, 1, 127, 128, 255, 65535, 4294967295ul, 9007199254740993ul}; return v[(k + i) % 8]; }
static std::ptrdiff_t sint_(long k, long i) { static const std::ptrdiff_t v[] = {-1, 0, 1, -32, -33, -128, -32769, 2147483647, -2147483649l, 4611686018427387905l}; return v[(k + i) % 10]; }
static std::string words(long k)
{
    switch (k % 5) { case 0: return ""; case 1: return "a"; case 2: return "name with spaces, \"quotes\" and \xc3\xa9"; case 3: return std::string(40, 'x'); default: return std::string(300, 'y'); }
}

// ---- every configurable class: how to give it arbitrary values, and what its entries are
template <class T> struct C;
#define V3(f, n) o.f = symVec(t + n, 3)
template <> struct C<humoto::rigidbody::RigidBodyPose>
{
    static const char *id() { return "RigidBodyPose"; }
    static void fill(humoto::rigidbody::RigidBodyPose &o, const std::string &t, long) { V3(position_, "p"); V3(rpy_, "r"); }
    static void dump(const humoto::rigidbody::RigidBodyPose &o, Dump &d) { d.mat("position", o.position_).mat("rpy", o.rpy_); }
    static void derived(const humoto::rigidbody::RigidBodyPose &, Dump &) {}
};
template <> struct C<humoto::rigidbody::PointMassState>
{
    static const char *id() { return "PointMassState"; }
    static void fill(humoto::rigidbody::PointMassState &o, const std::string &t, long) { V3(position_, "p"); V3(velocity_, "v"); V3(acceleration_, "a"); }
    static void dump(const humoto::rigidbody::PointMassState &o, Dump &d) { d.mat("position", o.position_).mat("velocity", o.velocity_).mat("acceleration", o.acceleration_); }
    static void derived(const humoto::rigidbody::PointMassState &, Dump &) {}
};
template <> struct C<humoto::rigidbody::RotaryState>
{
    static const char *id() { return "RotaryState"; }
    static void fill(humoto::rigidbody::RotaryState &o, const std::string &t, long) { V3(rpy_, "r"); V3(angular_velocity_, "w"); V3(angular_acceleration_, "e"); }
    static void dump(const humoto::rigidbody::RotaryState &o, Dump &d) { d.mat("rpy", o.rpy_).mat("angular_velocity", o.angular_velocity_).mat("angular_acceleration", o.angular_acceleration_); }
    static void derived(const humoto::rigidbody::RotaryState &, Dump &) {}
};
template <> struct C<humoto::rigidbody::RigidBodyState>
{
    static const char *id() { return "RigidBodyState"; }
    static void fill(humoto::rigidbody::RigidBodyState &o, const std::string &t, long k) { C<humoto::rigidbody::PointMassState>::fill(o, t, k); C<humoto::rigidbody::RotaryState>::fill(o, t, k); }
    static void dump(const humoto::rigidbody::RigidBodyState &o, Dump &d) { C<humoto::rigidbody::PointMassState>::dump(o, d); C<humoto::rigidbody::RotaryState>::dump(o, d); }
    static void derived(const humoto::rigidbody::RigidBodyState &, Dump &) {}
};
template <> struct C<humoto::kktsolver::SolverParameters>
{
    typedef humoto::kktsolver::SolverParameters T;
    static const char *id() { return "SolverParameters"; }
    static void fill(T &o, const std::string &t, long k) { if (t == "b") k = 3 - k % 4; o.crash_on_any_failure_ = k & 1; o.solve_two_levels_as_qp_ = k & 2; }
    static void dump(const T &o, Dump &d) { d.num("crash_on_any_failure", (int)o.crash_on_any_failure_).num("solve_two_levels_as_qp", (int)o.solve_two_levels_as_qp_); }
    static void derived(const T &, Dump &) {}
};
template <> struct C<humoto::quadprogpp::SolverParameters>
{
    typedef humoto::quadprogpp::SolverParameters T;
    static const char *id() { return "SolverParameters"; }
    static void fill(T &o, const std::string &t, long k) { if (t == "b") k = 3 - k % 4; o.crash_on_any_failure_ = k & 1; o.solve_two_levels_as_qp_ = k & 2; o.regularization_factor_ = sym(t + "r"); }
    static void dump(const T &o, Dump &d) { d.num("crash_on_any_failure", (int)o.crash_on_any_failure_).num("solve_two_levels_as_qp", (int)o.solve_two_levels_as_qp_); d("regularization_factor", o.regularization_factor_); }
    static void derived(const T &, Dump &) {}
};
template <> struct C<humoto::qpmad::SolverParameters>
{
    typedef humoto::qpmad::SolverParameters T;
    static const char *id() { return "SolverParameters"; }
    static void fill(T &o, const std::string &t, long k)
    {
        if (t == "b") k = 3 - k % 4;
        o.crash_on_any_failure_ = k & 1; o.solve_two_levels_as_qp_ = k & 2; o.regularization_factor_ = sym(t + "r");
        o.options_.hessian_type_ = (::qpmad::SolverParameters::HessianType)(k % 3); o.options_.tolerance_ = sym(t + "t"); o.options_.max_iter_ = (int)(10 * k + 7);
    }
    static void dump(const T &o, Dump &d)
    {
        d.num("crash_on_any_failure", (int)o.crash_on_any_failure_).num("solve_two_levels_as_qp", (int)o.solve_two_levels_as_qp_); d("regularization_factor", o.regularization_factor_);
        d.prefix = "QPmadParameters/"; d.num("hessian_type", (int)o.options_.hessian_type_).num("max_iter", o.options_.max_iter_); d("tolerance", o.options_.tolerance_); d.prefix = "";
    }
    static void derived(const T &, Dump &) {}
};
#define QPO_ENUM(X) X(enableRamping) X(enableFarBounds) X(enableFlippingBounds) X(enableRegularisation) X(enableFullLITests) X(enableNZCTests) X(enableEqualities) X(initialStatusBounds) X(enableInertiaCorrection) X(enableDropInfeasibles)
#define QPO_INT(X) X(enableDriftCorrection) X(enableCholeskyRefactorisation) X(numRegularisationSteps) X(numRefinementSteps) X(dropBoundPriority) X(dropEqConPriority) X(dropIneqConPriority)
#define QPO_REAL(X) X(terminationTolerance) X(boundTolerance) X(boundRelaxation) X(epsNum) X(epsDen) X(maxPrimalJump) X(maxDualJump) X(initialRamping) X(finalRamping) X(initialFarBounds) X(growFarBounds) X(epsFlipping) X(epsRegularisation) X(epsIterRef) X(epsLITests) X(epsNZCTests) X(rcondSMin)
template <> struct C<humoto::qpoases::SolverParameters>
{
    typedef humoto::qpoases::SolverParameters T;
    static const char *id() { return "SolverParameters"; }
    static void fill(T &o, const std::string &t, long k)
    {
        if (t == "b") k = 3 - k % 4;
        o.crash_on_any_failure_ = k & 1; o.solve_two_levels_as_qp_ = k & 2;
        o.max_number_of_iterations_ = (int)(300 * k + 1); o.max_cpu_time_ = sym(t + "time");
        long i = k;
#define X(e) o.options_.e = (decltype(o.options_.e))((i++ >> 1) & 1);
        QPO_ENUM(X)
#undef X
#define X(e) o.options_.e = (int)(100 * ++i);
        QPO_INT(X)
#undef X
#define X(e) o.options_.e = sym(t + #e);
        QPO_REAL(X)
#undef X
    }
    static void dump(const T &o, Dump &d)
    {
        d.num("crash_on_any_failure", (int)o.crash_on_any_failure_).num("solve_two_levels_as_qp", (int)o.solve_two_levels_as_qp_);
        d.num("max_number_of_iterations", o.max_number_of_iterations_); d("max_cpu_time", o.max_cpu_time_);
        d.prefix = "QPoasesParameters/";
#define X(e) d.num(#e, (int)o.options_.e);
        QPO_ENUM(X) QPO_INT(X)
#undef X
#define X(e) d(#e, o.options_.e);
        QPO_REAL(X)
#undef X
        d.prefix = "";
    }
    static void derived(const T &, Dump &) {}
};
template <> struct C<humoto::walking::RobotFootParameters>
{
    typedef humoto::walking::RobotFootParameters T;
    static const char *id() { return "RobotFootParameters"; }
    static void fill(T &o, const std::string &t, long)
    {
        o.max_step_len_ = sym(t + "1"); o.min_feet_dist_ = sym(t + "2"); o.max_feet_dist_ = sym(t + "3");
        o.feet_dist_default_ = sym(t + "4"); o.foot_length_ = sym(t + "5"); o.foot_width_ = sym(t + "6");
        o.finalize();
    }
    static void dump(const T &o, Dump &d)
    {
        d("max_step_len", o.max_step_len_)("min_feet_dist", o.min_feet_dist_)("max_feet_dist", o.max_feet_dist_);
        d("feet_dist_default", o.feet_dist_default_)("foot_length", o.foot_length_)("foot_width", o.foot_width_);
    }
    static void derived(const T &o, Dump &d)
    {
        typedef humoto::walking::FootBoundsType FB;
        for (int s = 0; s < 2; ++s) for (FB::Type k : {FB::WITH_RESPECT_TO_ADS, FB::WITH_RESPECT_TO_SS, FB::ALIGNED_TO_SS})
            d.mat("bounds" + std::to_string(s) + std::to_string((int)k), o.getFootBounds(s ? humoto::LeftOrRight::LEFT : humoto::LeftOrRight::RIGHT, k));
        d.mat("ss", o.getSSCoPBounds()).mat("ads", o.getADSCoPBounds());
    }
};
template <> struct C<humoto::walking::StanceFSMParameters>
{
    typedef humoto::walking::StanceFSMParameters T;
    static const char *id() { return "StanceFSMParameters"; }
    static void fill(T &o, const std::string &t, long k)
    {
        if (t == "b") k += 3;
        o.ss_duration_ms_ = uint_(k, 0); o.tds_duration_ms_ = uint_(k, 1); o.first_stance_duration_ms_ = uint_(k, 2); o.last_stance_duration_ms_ = uint_(k, 3); o.num_steps_ = uint_(k, 4);
        const ST::Type e[] = {ST::UNDEFINED, ST::DS, ST::LSS, ST::RSS};
        o.first_stance_ = e[k % 4]; o.first_ss_type_ = e[(k + 1) % 4]; o.last_stance_ = e[(k + 2) % 4];
    }
    static void dump(const T &o, Dump &d)
    {
        d.num("ss_duration_ms", o.ss_duration_ms_).num("tds_duration_ms", o.tds_duration_ms_).num("first_stance_duration_ms", o.first_stance_duration_ms_);
        d.num("last_stance_duration_ms", o.last_stance_duration_ms_).num("num_steps", o.num_steps_);
        d.num("first_stance", (int)o.first_stance_).num("first_ss_type", (int)o.first_ss_type_).num("last_stance", (int)o.last_stance_);
    }
    static void derived(const T &, Dump &) {}
};
template <> struct C<humoto::wpg04::WalkParameters>
{
    typedef humoto::wpg04::WalkParameters T;
    static const char *id() { return "WalkParameters"; }
    static void fill(T &o, const std::string &t, long k)
    {
        C<humoto::walking::StanceFSMParameters>::fill(o, t, k);
        o.com_velocity_ = symVec(t + "v", 2); o.first_stance_com_velocity_ = symVec(t + "f", 2); o.last_stance_com_velocity_ = symVec(t + "l", 2);
        o.step_height_ = sym(t + "h"); o.theta_increment_ = sym(t + "theta");
    }
    static void dump(const T &o, Dump &d)
    {
        C<humoto::walking::StanceFSMParameters>::dump(o, d);
        d.mat("com_velocity", o.com_velocity_).mat("first_stance_com_velocity", o.first_stance_com_velocity_).mat("last_stance_com_velocity", o.last_stance_com_velocity_);
        d("step_height", o.step_height_)("theta_increment", o.theta_increment_);
    }
    static void derived(const T &, Dump &) {}
};
template <> struct C<humoto::wpg04::MPCParameters>
{
    typedef humoto::wpg04::MPCParameters T;
    static const char *id() { return "MPCParameters"; }
    static void fill(T &o, const std::string &t, long k)
    {
        if (t == "b") k += 2;
        const std::size_t n[] = {0, 1, 16, 300}, s[] = {100, 20, 1, 70000}, m[] = {1, 5, 3, 1}, d[] = {2, 10, 400, 1};
        k %= 4;
        o = T(n[k], s[k] * m[k], s[k], s[k] * d[k]);
    }
    static void dump(const T &o, Dump &d)
    {
        d.num("preview_horizon_length", o.preview_horizon_length_).num("sampling_time_ms", o.sampling_time_ms_);
        d.num("subsampling_time_ms", o.subsampling_time_ms_).num("tds_sampling_time_ms", o.tds_sampling_time_ms_);
    }
    static void derived(const T &o, Dump &d) { 
        d("subsampling", o.getSubsamplingTime());
        with_sampling_time_(o, [&](auto &m) { d("sampling", m); }, 0); with_tds_sampling_time_(o, [&](auto &m) { d("tds", m); }, 0);
        with_subsamples_num_(o, [&](auto &m) { d.num("n", m); }, 0); with_tds_subsamples_num_(o, [&](auto &m) { d.num("tn", m); }, 0);
    }
};
template <> struct C<humoto::wpg04::ModelState>
{
    typedef humoto::wpg04::ModelState T;
    static const char *id() { return "ModelState"; }
    static void fill(T &o, const std::string &t, long k)
    {
        if (t == "b") k += 1;
        const ST::Type e[] = {ST::UNDEFINED, ST::DS, ST::LSS, ST::RSS};
        o.stance_type_ = e[k % 4]; o.next_stance_type_ = e[(k + 2) % 4];
        C<humoto::rigidbody::PointMassState>::fill(o.com_state_, t + "c", k);
        C<humoto::rigidbody::RigidBodyState>::fill(o.feet_.getLeft(), t + "l", k);
        C<humoto::rigidbody::RigidBodyState>::fill(o.feet_.getRight(), t + "r", k);
    }
    static void dump(const T &o, Dump &d)
    {
        d.num("stance_type", (int)o.stance_type_).num("next_stance_type", (int)o.next_stance_type_);
        d.prefix = "com_state/"; C<humoto::rigidbody::PointMassState>::dump(o.com_state_, d);
        d.prefix = "left_foot_state/"; C<humoto::rigidbody::RigidBodyState>::dump(o.feet_.getLeft(), d);
        d.prefix = "right_foot_state/"; C<humoto::rigidbody::RigidBodyState>::dump(o.feet_.getRight(), d);
        d.prefix = "";
    }
    static void derived(const T &, Dump &) {}
    static void members(T &o) { o.com_state_.setDefaults(); o.feet_.getLeft().setDefaults(); o.feet_.getRight().setDefaults(); }
};
template <> struct C<humoto::pepper_mpc::RobotParameters>
{
    typedef humoto::pepper_mpc::RobotParameters T;
    static const char *id() { return "RobotParameters"; }
    static void fill(T &o, const std::string &t, long)
    {
        o.base_radius_ = sym(t + "1"); o.max_nominal_base_velocity_ = sym(t + "2"); o.max_nominal_base_acceleration_ = sym(t + "3");
        o.max_base_velocity_ = sym(t + "4"); o.max_base_acceleration_ = sym(t + "5"); o.body_bounds_ = symMat(t + "b", 2, 2);
        o.finalize();
    }
    static void dump(const T &o, Dump &d)
    {
        d("base_radius", o.base_radius_)("max_nominal_base_velocity", o.max_nominal_base_velocity_)("max_nominal_base_acceleration", o.max_nominal_base_acceleration_);
        d("max_base_velocity", o.max_base_velocity_)("max_base_acceleration", o.max_base_acceleration_).mat("body_bounds", o.body_bounds_);
    }
    static void derived(const T &o, Dump &d)
    {
        d.mat("cop", o.getCoPBounds()).mat("v", o.getNominalBaseVelocityBounds()).mat("a", o.getNominalBaseAccelerationBounds()).mat("b", o.getBodyBounds());
    }
};
template <> struct C<humoto::pepper_mpc::MotionParameters>
{
    typedef humoto::pepper_mpc::MotionParameters T;
    static const char *id() { return "MotionParameters"; }
    static void fill(T &o, const std::string &t, long k)
    {
        if (t == "b") k += 4;
        o.base_velocity_ = symVec(t + "v", 2); o.base_position_ = symVec(t + "p", 2); o.base_angular_velocity_ = sym(t + "w");
        o.motion_mode_ = (humoto::pepper_mpc::MotionMode::Mode)(k % 3); o.duration_ms_ = sint_(k, 0);
    }
    static void dump(const T &o, Dump &d)
    {
        d.mat("base_velocity", o.base_velocity_).mat("base_position", o.base_position_)("base_angular_velocity", o.base_angular_velocity_);
        d.num("motion_mode", (int)o.motion_mode_).num("duration_ms", (long)o.duration_ms_);
    }
    static void derived(const T &, Dump &) {}
};
template <> struct C<humoto::pepper_mpc::MPCParameters>
{
    typedef humoto::pepper_mpc::MPCParameters T;
    static const char *id() { return "MPCParameters"; }
    static void fill(T &o, const std::string &t, long k) { if (t == "b") k += 5; o = T(uint_(k, 0), uint_(k, 1), uint_(k, 2)); }
    static void dump(const T &o, Dump &d) { d.num("preview_horizon_length", o.preview_horizon_length_).num("sampling_time_ms", o.sampling_time_ms_).num("subsampling_time_ms", o.subsampling_time_ms_); }
    static void derived(const T &o, Dump &d) { d("sampling", o.getSamplingTime())("subsampling", o.getSubsamplingTime()); }
};
template <> struct C<humoto::pepper_mpc::ModelState>
{
    typedef humoto::pepper_mpc::ModelState T;
    static const char *id() { return "ModelState"; }
    static void fill(T &o, const std::string &t, long k)
    {
        C<humoto::rigidbody::RigidBodyState>::fill(o.base_state_, t + "s", k);
        C<humoto::rigidbody::PointMassState>::fill(o.body_state_, t + "y", k);
        o.base_mass_ = sym(t + "m"); o.body_mass_ = sym(t + "M");
    }
    static void dump(const T &o, Dump &d)
    {
        d.prefix = "base_state/"; C<humoto::rigidbody::RigidBodyState>::dump(o.base_state_, d);
        d.prefix = "body_state/"; C<humoto::rigidbody::PointMassState>::dump(o.body_state_, d);
        d.prefix = "";
        d("base_mass", o.base_mass_)("body_mass", o.body_mass_);
    }
    static void derived(const T &, Dump &) {}
    static void members(T &o) { o.base_state_.setDefaults(); o.body_state_.setDefaults(); }
};
template <class T> static auto memberDefaults(T &o, int) -> decltype(C<T>::members(o)) { C<T>::members(o); }
template <class T> static void memberDefaults(T &, long) {}

template <class T> static Dump dumpOf(const T &o) { Dump d; C<T>::dump(o, d); return d; }
template <class T> static Dump derivedOf(const T &o) { Dump d; C<T>::derived(o, d); return d; }

template <class T> static void roundTrip(long variants)
{
    long k = choose("variant", 0, variants - 1);
    TempFile f, g;
    T a; C<T>::fill(a, "a", k);
    T b; C<T>::fill(b, "b", k);
    Dump da = dumpOf(a), va = derivedOf(a);
    if (!works("written", [&]() { a.template writeConfig<Writer>(f.name); })) return;
    compare("writing leaves the object alone", da, dumpOf(a));
    // everything is read back, whatever the object held before
    if (works("read", [&]() { b.template readConfig<Reader>(f.name); }))
    {
        compare("read back", da, dumpOf(b));
        compare("derived values follow", va, derivedOf(b));
    }
    { Reader r(f.name); works("constructed from a configuration", [&]() { T c(r); compare("constructed", da, dumpOf(c)); compare("constructed, derived", va, derivedOf(c)); }); }
    // under another name, next to another section
    {
        T c; C<T>::fill(c, "c", k + 1);
        { Writer w(g.name); c.writeConfig(w, "first"); a.writeConfig(w, "second"); }
        Reader r(g.name);
        works("constructed from a named section", [&]() { T x(r, "second"); compare("second section", da, dumpOf(x)); });
        works("constructed from a section named by a string", [&]() { std::string n("second"); T x(r, n); compare("second section, by a string", da, dumpOf(x)); });
        works("read from a named section", [&]() { T x; x.readConfig(r, "first"); compare("first section", dumpOf(c), dumpOf(x)); });
        works("read from a section named by the file", [&]() { T x; x.template readConfig<Reader>(g.name, "second"); compare("second section, by the file", da, dumpOf(x)); });
        fails("a missing section is an error", [&]() { T x; x.readConfig(r, "third"); });
        works("unless it is optional", [&]() { T x, y; C<T>::fill(x, "b", k); x.readConfig(r, "third", false); compare("defaults", dumpOf(y), dumpOf(x)); compare("derived defaults", derivedOf(y), derivedOf(x)); });
    }
}
// a file with one entry missing
template <class T> static void missing(long variants)
{
    long k = choose("variant", 0, variants - 1);
    TempFile f, g;
    T a; C<T>::fill(a, "a", k);
    T fresh, members; memberDefaults(members, 0);
    Dump da = dumpOf(a), dd = dumpOf(fresh), dm = dumpOf(members);
    if (!works("written", [&]() { a.template writeConfig<Writer>(f.name); })) return;
    std::vector<std::string> all = entriesOf(f.name, C<T>::id());
    for (auto &e : da.e) ensures("the file holds " + e.first, std::find(all.begin(), all.end(), e.first) != all.end());
    if (all.empty()) return;
    std::string path = all[choose("entry", 0, (long)all.size() - 1)];
    edit(f.name, g.name, C<T>::id(), path);
    fails("missing " + path + " is an error", [&]() { T b; b.template readConfig<Reader>(g.name); });
    fails("missing " + path + " is an error, explicitly", [&]() { T b; b.template readConfig<Reader>(g.name, true); });
    bool part = true;       // inside of an entry (dimensions of a matrix): always an error
    for (auto &e : da.e) if (below(e.first, path)) part = false;
    T b; C<T>::fill(b, "b", k);
    if (part) { fails("incomplete entry " + path, [&]() { b.template readConfig<Reader>(g.name, false); }); return; }
    if (!works("optional " + path, [&]() { b.template readConfig<Reader>(g.name, false); })) return;
    Dump db = dumpOf(b);
    for (auto &e : da.e)
        if (!below(e.first, path)) ensures("other entries are read: " + e.first, same(e.second, db.e[e.first]));
        else ensures("default value of " + e.first, lor({same(dd.e[e.first], db.e[e.first]), same(dm.e[e.first], db.e[e.first])}));
}
// a file with an entry of another kind
template <class T> static void malformed(long variants)
{
    long k = choose("variant", 0, variants - 1);
    TempFile f, g;
    T a; C<T>::fill(a, "a", 1);
    if (!works("written", [&]() { a.template writeConfig<Writer>(f.name); })) return;
    std::vector<std::string> all = entriesOf(f.name, C<T>::id());
    if (all.empty()) return;
    std::string path = all[choose("entry", 0, (long)all.size() - 1)];
    switch (k)
    {
        case 0: edit(f.name, g.name, C<T>::id(), path, [](Packer &p) { p.pack(std::string("text")); }); break;
        case 1: edit(f.name, g.name, C<T>::id(), path, [](Packer &p) { p.pack_nil(); }); break;
        default: edit(f.name, g.name, C<T>::id(), path, [](Packer &p) { p.pack_array(7); for (int i = 0; i < 7; ++i) p.pack(i); }); break;
    }
    fails("malformed " + path, [&]() { T b; b.template readConfig<Reader>(g.name); });
}
#define CONFIG(name, T, variants)                                                                                                      \
    CONTRACT(round_trip_##name, #T "::{writeConfig,readConfig,setDefaults,finalize}") { roundTrip<T>(variants); }                      \
    CONTRACT(missing_##name, #T "::{readConfig,readNestedConfig,setDefaults}") { missing<T>(variants > 2 ? 2 : variants); }            \
    CONTRACT(malformed_##name, #T "::{readConfig,readNestedConfig}") { malformed<T>(3); }
CONFIG(pose, humoto::rigidbody::RigidBodyPose, 1)
CONFIG(point_mass, humoto::rigidbody::PointMassState, 1)
CONFIG(rotary, humoto::rigidbody::RotaryState, 1)
CONFIG(body, humoto::rigidbody::RigidBodyState, 1)
CONFIG(kkt_parameters, humoto::kktsolver::SolverParameters, 4)
CONFIG(quadprogpp_parameters, humoto::quadprogpp::SolverParameters, 4)
CONFIG(qpmad_parameters, humoto::qpmad::SolverParameters, 4)
CONFIG(qpoases_parameters, humoto::qpoases::SolverParameters, 4)
CONFIG(foot, humoto::walking::RobotFootParameters, 1)
CONFIG(stances, humoto::walking::StanceFSMParameters, 8)
CONFIG(walk, humoto::wpg04::WalkParameters, 8)
CONFIG(walking_mpc, humoto::wpg04::MPCParameters, 4)
CONFIG(walking_state, humoto::wpg04::ModelState, 4)
CONFIG(robot, humoto::pepper_mpc::RobotParameters, 1)
CONFIG(motion, humoto::pepper_mpc::MotionParameters, 10)
CONFIG(wheeled_mpc, humoto::pepper_mpc::MPCParameters, 8)
CONFIG(wheeled_state, humoto::pepper_mpc::ModelState, 1)

CONTRACT(solution, "Solution::{writeConfig,readConfig}")
{
    long n = size("size", 0, 9, 13);
    TempFile f, g;
    humoto::Solution a, b;
    a.x_ = symVec("x", n); b.x_ = symVec("y", 3);
    a.writeConfig<Writer>(f.name);
    b.readConfig<Reader>(f.name);
    ensures("read back", eqm(b.x_, a.x_));
    edit(f.name, g.name, "Solution", "x");
    fails("a missing solution is an error", [&]() { b.readConfig<Reader>(g.name); });
}
// the bridge itself
CONTRACT(matrices, "config::{msgpack,yaml}::{Writer::writeCompound,Reader::readCompound} for matrices")
{
    long r = size("rows", 0, 5, 7), c = size("cols", 0, 5, 7);
    TempFile f;
    MatX a = symMat("a", r, c), b = symMat("b", 2, 2);
    Eigen::Matrix<Real, 2, 3> fixed; fixed = symMat("f", 2, 3);
    { Writer w(f.name); w.initRoot(); w.descend("node", 2); w.writeCompound(a, "m"); w.writeCompound(fixed, "n"); w.ascend(); w.flush(); }
    Reader rd(f.name);
    ensures("section", rd.descend("node"));
    works("read", [&]() { rd.readCompound(b, "m", true); });
    ensures("matrix read back", eqm(a, b));
    Eigen::Matrix<Real, 2, 3> x; x.setZero();
    works("fixed size", [&]() { rd.readCompound(x, "n", true); });
    ensures("fixed size matrix read back", eqm(fixed, x));
    works("optional", [&]() { rd.readCompound(x, "k", false); });
    ensures("left alone", eqm(fixed, x));
    fails("missing matrix", [&]() { rd.readCompound(b, "k", true); });
    if (r != 2 || c != 3) fails("a matrix of another size is an error", [&]() { rd.readCompound(x, "m", true); });
}
CONTRACT(vectors, "config::{msgpack,yaml}::{Writer,Reader}::{writeCompound,readCompound} for vectors")
{
    long n = size("size", 0, 9, 14), k = choose("variant", 0, 7);
    TempFile f;
    VecX a = symVec("a", n), b = symVec("b", 2);
    Eigen::Matrix<Real, 3, 1> x; x.setZero();
    std::vector<std::size_t> iv, jv(2);
    std::vector<Real> rv, sv;
    std::vector<std::string> tv, uv;
    std::vector<std::vector<std::string>> vv, wv(3);
    humoto::IndexVector ix(n), iy;
    for (long i = 0; i < n; ++i) { iv.push_back(uint_(k, i)); rv.push_back(sym(idx("r", i))); tv.push_back(words(k + i)); vv.push_back(std::vector<std::string>((k + i) % 3, words(i + k))); ix(i) = (unsigned)uint_(k % 6, i); }
    { Writer w(f.name); w.initRoot(); w.descend("node", 6); w.writeCompound(a, "a"); w.writeCompound(iv, "i"); w.writeCompound(rv, "r"); w.writeCompound(tv, "t"); w.writeCompound(vv, "v"); w.writeCompound(ix, "x"); w.ascend(); w.flush(); }
    Reader rd(f.name);
    ensures("section", rd.descend("node"));
    works("read", [&]() { rd.readCompound(b, "a", true); rd.readCompound(jv, "i", true); rd.readCompound(sv, "r", true); rd.readCompound(uv, "t", true); rd.readCompound(wv, "v", true); rd.readCompound(iy, "x", true); });
    ensures("vector read back", eqm(a, b));
    ensures("integers read back", iv == jv && tv == uv && vv == wv);
    bool ok = iy.size() == n;
    for (long i = 0; ok && i < n; ++i) ok = ix(i) == iy(i);
    ensures("indices read back", ok);
    ensures("size", sv.size() == rv.size());
    for (long i = 0; i < n && i < (long)sv.size(); ++i) ensures("numbers read back", eq(rv[i], sv[i]));
    if (n == 3) { rd.readCompound(x, "a", true); ensures("fixed size vector read back", eqm(a, x)); }
    else fails("a vector of another size is an error", [&]() { rd.readCompound(x, "a", true); });
    fails("missing vector", [&]() { rd.readCompound(b, "z", true); });
    fails("missing list", [&]() { rd.readCompound(jv, "z", true); });
    fails("missing number", [&]() { Real q; rd.readScalar(q, "z", true); });
    fails("missing enumeration", [&]() { ST::Type q; rd.readEnum(q, "z", true); });
}
CONTRACT(scalars, "config::{msgpack,yaml}::{Writer,Reader}::{writeScalar,readScalar,writeEnum,readEnum}")
{
    long k = choose("variant", 0, 39);
    TempFile f;
    std::size_t u = uint_(k, 0), u2 = 3; std::ptrdiff_t s = sint_(k, 0), s2 = 3; std::string t = words(k), t2 = "?"; bool b = k & 1, b2 = !b; Real r = sym("r"), r2 = Real(1); ST::Type e = (ST::Type)(k % 4), e2 = (ST::Type)((k + 1) % 4);
    { Writer w(f.name); w.initRoot(); w.descend("node", 6); w.writeScalar(u, "u"); w.writeScalar(s, "s"); w.writeScalar(t, "t"); w.writeScalar(b, "b"); w.writeScalar(r, "r"); w.writeEnum(e, "e"); w.ascend(); w.flush(); }
    Reader rd(f.name);
    ensures("section", rd.descend("node"));
    works("read", [&]() { rd.readScalar(s2, "s", true); rd.readScalar(u2, "u", true); rd.readScalar(t2, "t", true); rd.readScalar(b2, "b", true); rd.readScalar(r2, "r", true); rd.readEnum(e2, "e", true); });
    ensures("read back", u == u2 && s == s2 && t == t2 && b == b2 && e == e2);
    ensures("number read back", eq(r, r2));
    rd.ascend();
    ensures("unknown section", !rd.descend("nodes"));
    ensures("again", rd.descend("node"));
}
CONTRACT(files, "config::{msgpack,yaml}::{Reader,Writer}, opening of files")
{
    TempFile f, g;
    fails("no such file", [&]() { humoto::walking::RobotFootParameters p; p.readConfig<Reader>(f.name); });
    fails("not writable", [&]() { humoto::walking::RobotFootParameters p; p.writeConfig<Writer>(std::string("/nonexistent_directory/file")); });
    humoto::walking::RobotFootParameters p;
    p.writeConfig<Writer>(f.name);
#ifdef VP_YAML
    for (int i = 0; i < 2; ++i)
    {
        spit(g.name, i ? "other: {x: 1}\n" + slurp(f.name) + "\nlast: [1, 2]\n" : slurp(f.name));
        p.max_step_len_ = Real(17);
        works("surrounded by something else", [&]() { p.readConfig<Reader>(g.name); });
        compare("read back", dumpOf(humoto::walking::RobotFootParameters()), dumpOf(p));
    }
    spit(g.name, "");
    fails("empty file", [&]() { p.readConfig<Reader>(g.name); });
#else
    std::string d = slurp(f.name);
    long cut = size("length", 0, 40, 40);
    if (cut >= (long)d.size()) throw PathInfeasible();
    spit(g.name, d.substr(0, cut));
    fails("truncated file", [&]() { humoto::walking::RobotFootParameters q; q.readConfig<Reader>(g.name); });
    // other sections before and after, and an empty one
    std::stringstream o;
    { Packer k(o); k.pack_map(0); k.pack(5); k.pack_map(2); k.pack(std::string("x")); k.pack(1); k.pack(std::string("y")); k.pack_map(0); }
    spit(g.name, o.str() + d + o.str());
    p.max_step_len_ = Real(17);
    works("surrounded by something else", [&]() { p.readConfig<Reader>(g.name); });
    compare("read back", dumpOf(humoto::walking::RobotFootParameters()), dumpOf(p));
#endif
}
CONTRACT(sampling_times, "wpg04::MPCParameters::{readConfig,finalize}")
{
    const std::size_t v[] = {0, 1, 3, 20, 50, 100};
    humoto::wpg04::MPCParameters a;
    std::size_t s = v[choose("sampling", 0, 5)], sub = v[choose("subsampling", 0, 5)], tds = v[choose("tds", 0, 5)];
    a.sampling_time_ms_ = s; a.subsampling_time_ms_ = sub; a.tds_sampling_time_ms_ = tds;
    TempFile f;
    a.writeConfig<Writer>(f.name);
    if (sub != 0 && s % sub == 0 && tds % sub == 0)
        works("accepted", [&]() { humoto::wpg04::MPCParameters b; b.readConfig<Reader>(f.name); 
            with_subsamples_num_(b, [&](auto &m) { ensures("subsamples", m * sub == s); }, 0);
            with_tds_subsamples_num_(b, [&](auto &m) { ensures("subsamples of a transition", m * sub == tds); }, 0);
            with_sampling_time_(b, [&](auto &m) { ensures("sampling time in seconds", eq(m, Real((long)s) / Real(1000))); }, 0);
            with_subsampling_time_(b, [&](auto &m) { ensures("subsampling time in seconds", eq(m, Real((long)sub) / Real(1000))); }, 0);
            with_tds_sampling_time_(b, [&](auto &m) { ensures("sampling time of a transition in seconds", eq(m, Real((long)tds) / Real(1000))); }, 0);
        });
    else
        fails("sampling times which do not match are an error", [&]() { humoto::wpg04::MPCParameters b; b.readConfig<Reader>(f.name); });
}

// ---- tasks
template <class T> static auto gainOf(const T &t, int) -> decltype(t.getGain()) { return t.getGain(); }
template <class T> static Real gainOf(const T &, long) { return Real(0); }
template <class T> static auto setGainOf(T &t, const Real &g, int) -> decltype(t.setGain(g)) { t.setGain(g); }
template <class T> static void setGainOf(T &, const Real &, long) {}
static void taskDump(const humoto::TaskBase *t, Dump &d)
{
    d.str("description", t->getDescription());
    if (auto z = dynamic_cast<const humoto::TaskZeroVariables *>(t)) { d.str("variables_id", z->variables_id_); d("gain", z->getGain()); }
    else if (auto z = dynamic_cast<const humoto::TaskZeroSelectedVariables *>(t)) { Value v; for (long i = 0; i < z->variables_indices_.size(); ++i) v.s += std::to_string(z->variables_indices_(i)) + ","; d.e["variables_indices"] = v; d("gain", z->getGain()); }
    else if (auto z = dynamic_cast<const humoto::wpg04::TaskFootstepBounds *>(t)) d.num("fix_footsteps", (int)z->fix_footsteps_);
#define G(K) else if (auto z = dynamic_cast<const humoto::K *>(t)) d("gain", z->getGain());
    G(TaskALU) G(TaskAL) G(TaskAU) G(TaskAB) G(TaskAB0) G(TaskASLU) G(TaskASL) G(TaskASU) G(TaskASB) G(TaskASB0) G(TaskGILU) G(TaskGIL) G(TaskGIU) G(TaskGIB) G(TaskGIB0)
#undef G
}
template <class T> static void taskTrip(T a, T b, const T &fresh)
{
    setGainOf(a, sym("gain"), 0); setGainOf(b, sym("other"), 0);
    TempFile f, g;
    humoto::TaskBase &ta = a, &tb = b;
    Dump da; taskDump(&ta, da);
    if (!works("written", [&]() { ta.writeConfig<Writer>(f.name); })) return;
    works("read", [&]() { tb.readConfig<Reader>(f.name); });
    Dump db; taskDump(&tb, db);
    compare("read back", da, db);
    with_is_modified_(b, [&](auto &m) { ensures("the task is to be formed anew", m); }, 0);
    std::vector<std::string> all = entriesOf(f.name, ta.getDescription());
    for (auto &e : da.e) if (e.first != "description") ensures("the file holds " + e.first, std::find(all.begin(), all.end(), e.first) != all.end());
    for (auto &e : all)
    {
        edit(f.name, g.name, ta.getDescription(), e);
        fails("missing " + e, [&]() { tb.readConfig<Reader>(g.name); });
        if (e != "gain") continue;
        works("optional gain", [&]() { tb.readConfig<Reader>(g.name, false); });
        ensures("default gain", lor({eq(gainOf(b, 0), gainOf(fresh, 0)), eq(gainOf(b, 0), Real(0))}));
    }
}
#define TASK(name, T)                                                                                                   \
    CONTRACT(task_##name, #T "::{writeConfig,readConfig,setDefaults,finalize}") { taskTrip<T>(T(), T(), T()); }
template <class B> struct Named : public B
{
    Named() : B("Generic task", Real(2)) {}
    void form(const humoto::SolutionStructure &, const humoto::Model &, const humoto::ControlProblem &) {}
};
template <class B> struct NamedSimple : public B
{
    NamedSimple() : B("Simple task") {}
    void form(const humoto::SolutionStructure &, const humoto::Model &, const humoto::ControlProblem &) {}
};
TASK(alu, Named<humoto::TaskALU>) TASK(al, Named<humoto::TaskAL>) TASK(au, Named<humoto::TaskAU>) TASK(ab, Named<humoto::TaskAB>) TASK(ab0, Named<humoto::TaskAB0>)
TASK(aslu, Named<humoto::TaskASLU>) TASK(asb, Named<humoto::TaskASB>) TASK(asb0, Named<humoto::TaskASB0>)
TASK(gilu, Named<humoto::TaskGILU>) TASK(gib, Named<humoto::TaskGIB>) TASK(gib0, Named<humoto::TaskGIB0>) TASK(ilu, NamedSimple<humoto::TaskILU>) TASK(ib0, NamedSimple<humoto::TaskIB0>)
TASK(infeasible, humoto::TaskInfeasibleInequality)
TASK(com_velocity, humoto::wpg04::TaskCoMVelocity) TASK(cop_position, humoto::wpg04::TaskCoPPosition) TASK(cop_velocity, humoto::wpg04::TaskCoPVelocity)
TASK(cop_bounds, humoto::wpg04::TaskCoPBounds) TASK(terminal, humoto::wpg04::TaskTerminalConstraint)
CONTRACT(task_footsteps, "wpg04::TaskFootstepBounds::{writeConfig,readConfig,setDefaults}")
{
    typedef humoto::wpg04::TaskFootstepBounds T;
    bool v = choose("fixed", 0, 1);
    taskTrip<T>(T(v), T(!v), T());
}
CONTRACT(task_zero, "TaskZeroVariables::{writeConfig,readConfig}")
{
    typedef humoto::TaskZeroVariables T;
    long k = choose("variant", 0, 4);
    taskTrip<T>(T(Real(1), "id", words(k)), T(Real(2), "id", words(k + 1)), T());
}
CONTRACT(task_selected, "TaskZeroSelectedVariables::{writeConfig,readConfig}")
{
    typedef humoto::TaskZeroSelectedVariables T;
    long n = size("size", 0, 9, 15);
    humoto::IndexVector i(n), j(2);
    for (long q = 0; q < n; ++q) i(q) = (unsigned)(300 * q + 7);
    j << 1, 2;
    taskTrip<T>(T(i), T(j), T(j));
}
TASK(wheeled_acceleration_bounds, humoto::pepper_mpc::TaskBaseAccelerationBounds) TASK(wheeled_base_jerk, humoto::pepper_mpc::TaskBaseJerkMinimization)
TASK(wheeled_base_position, humoto::pepper_mpc::TaskBasePositionReference) TASK(wheeled_velocity_bounds, humoto::pepper_mpc::TaskBaseVelocityBounds)
TASK(wheeled_base_velocity, humoto::pepper_mpc::TaskBaseVelocityReference) TASK(wheeled_body_jerk, humoto::pepper_mpc::TaskBodyJerkMinimization)
TASK(wheeled_body_bounds, humoto::pepper_mpc::TaskBodyPositionBounds) TASK(wheeled_body_position, humoto::pepper_mpc::TaskBodyPositionReference)
TASK(wheeled_cop, humoto::pepper_mpc::TaskCoPCentering) TASK(wheeled_cop_bounds, humoto::pepper_mpc::TaskCoPPositionBounds)

// ---- hierarchies of tasks
typedef humoto::TaskSharedPointer TP;
struct Item { const char *cls; TP t; };
template <class T> static Item item(const char *c, T *t, const std::string &id, const std::string &gain) { t->setDescription(id); setGainOf(*t, sym(gain), 0); return Item{c, TP(t)}; }
static std::vector<Item> coreTasks()
{
    humoto::IndexVector i(3); i << 5, 0, 400;
    return {item("TaskZeroVariables", new humoto::TaskZeroVariables(Real(1), "x", "part"), "zero", "g1"),
            item("TaskZeroSelectedVariables", new humoto::TaskZeroSelectedVariables(i), "selected", "g2"),
            item("TaskInfeasibleInequality", new humoto::TaskInfeasibleInequality, "infeasible", "g3")};
}
static std::vector<Item> walkingTasks()
{
    using namespace humoto::wpg04;
    return {item("TaskCoMVelocity", new TaskCoMVelocity, "w1", "g1"), item("TaskCoPPosition", new TaskCoPPosition, "w2", "g2"), item("TaskCoPVelocity", new TaskCoPVelocity, "w3", "g3"),
            item("TaskFootstepBounds", new TaskFootstepBounds(true), "w4", "g4"), item("TaskCoPBounds", new TaskCoPBounds, "w5", "g5"), item("TaskTerminalConstraint", new TaskTerminalConstraint, "w6", "g6")};
}
static std::vector<Item> wheeledTasks()
{
    using namespace humoto::pepper_mpc;
    return {item("TaskBaseAccelerationBounds", new TaskBaseAccelerationBounds, "m1", "g1"), item("TaskBaseJerkMinimization", new TaskBaseJerkMinimization, "m2", "g2"),
            item("TaskBasePositionReference", new TaskBasePositionReference, "m3", "g3"), item("TaskBaseVelocityBounds", new TaskBaseVelocityBounds, "m4", "g4"),
            item("TaskBaseVelocityReference", new TaskBaseVelocityReference, "m5", "g5"), item("TaskBodyJerkMinimization", new TaskBodyJerkMinimization, "m6", "g6"),
            item("TaskBodyPositionBounds", new TaskBodyPositionBounds, "m7", "g7"), item("TaskBodyPositionReference", new TaskBodyPositionReference, "m8", "g8"),
            item("TaskCoPCentering", new TaskCoPCentering, "m9", "g9"), item("TaskCoPPositionBounds", new TaskCoPPositionBounds, "m10", "g10")};
}
static std::vector<const humoto::TaskBase *> tasksOf(const humoto::HierarchyLevel &l)
{
    std::vector<const humoto::TaskBase *> r;
    for (auto &i : l.tasks_) r.push_back(i.ptr_.get());
    return r;
}
template <class Problem> static void compareProblems(const Problem &a, const Problem &b)
{
    ensures("number of levels", a.getNumberOfLevels() == b.getNumberOfLevels());
    if (a.getNumberOfLevels() != b.getNumberOfLevels()) return;
    for (std::size_t l = 0; l < a.getNumberOfLevels(); ++l)
    {
        auto ta = tasksOf(a[l]), tb = tasksOf(b[l]);
        ensures("number of tasks", ta.size() == tb.size());
        for (std::size_t i = 0; i < ta.size() && i < tb.size(); ++i)
        {
            ensures("class of a task", typeid(*ta[i]) == typeid(*tb[i]));
            Dump da, db; taskDump(ta[i], da); taskDump(tb[i], db);
            compare("task", da, db);
        }
    }
}
template <class Problem> static void problemTrip(const std::vector<Item> &items, long maxLevels)
{
    long levels = choose("levels", 1, maxLevels), rot = choose("rotation", 0, 2), again = choose("again", 0, 1);
    TempFile f, g;
    Problem a, b;
    a.reset(levels);
    for (std::size_t i = 0; i < items.size(); ++i)
    {
        const Item &t = items[(i + rot) % items.size()];
        a.pushTask(t.t, (i * i + rot) % levels, std::string(t.cls));
    }
    if (!works("written", [&]() { a.template writeConfig<Writer>(f.name); })) return;
    if (again) { b.reset(2); b.pushTask(TP(new humoto::TaskZeroVariables(Real(3), "old")), 1, "TaskZeroVariables"); }
    if (!works("read", [&]() { b.template readConfig<Reader>(f.name); })) return;
    compareProblems(a, b);
    // and once more, from what was read
    Problem c;
    works("written again", [&]() { b.template writeConfig<Writer>(g.name); c.template readConfig<Reader>(g.name); });
    compareProblems(a, c);
}
CONTRACT(problem, "ConfigurableOptimizationProblem::{pushTask,reset,readConfig,writeConfig,getTask}") { problemTrip<humoto::ConfigurableOptimizationProblem>(coreTasks(), 3); }
CONTRACT(walking_problem, "wpg04::ConfigurableOptimizationProblem::{readConfig,writeConfig,getTask}") { auto v = walkingTasks(); for (auto &i : coreTasks()) v.push_back(i); problemTrip<humoto::wpg04::ConfigurableOptimizationProblem>(v, 3); }
CONTRACT(wheeled_problem, "pepper_mpc::ConfigurableOptimizationProblem::{readConfig,writeConfig,getTask}") { auto v = wheeledTasks(); for (auto &i : coreTasks()) v.push_back(i); problemTrip<humoto::pepper_mpc::ConfigurableOptimizationProblem>(v, 3); }
CONTRACT(refused_problems, "ConfigurableOptimizationProblem::readConfig")
{
    typedef humoto::wpg04::ConfigurableOptimizationProblem P;
    TempFile f, g;
    P a;
    a.reset(2);
    auto items = coreTasks();
    a.pushTask(items[0].t, 0, std::string(items[0].cls));
    a.pushTask(items[1].t, 1, std::string(items[1].cls));
    typedef std::vector<std::vector<std::string>> VV;
    long k = choose("defect", 0, 9);
    if (k == 0) { a.reset(2); a.pushTask(items[0].t, 0, std::string("NoSuchTask")); a.pushTask(items[1].t, 1, std::string(items[1].cls)); }
    a.writeConfig<Writer>(f.name);
    std::string s = "OptimizationProblem";
    auto put = [&](const char *e, const VV &v) { edit(f.name, g.name, s, e, [&](Packer &p) { p.pack(v); }); };
    switch (k)
    {
        case 0: edit(f.name, g.name, s, "nothing"); break;
        case 1: put("task_class_names", VV{{"TaskZeroVariables"}}); break;
        case 2: put("task_class_names", VV{}); break;
        case 3: put("task_ids", VV{{"zero"}, {"selected", "zero"}}); break;
        case 4: put("task_ids", VV{{"zero"}, {"other"}}); break;
        case 5: edit(f.name, g.name, s, "task_ids"); break;
        case 6: edit(f.name, g.name, s, "task_class_names"); break;
        case 7: edit(f.name, g.name, s, "zero"); break;
        case 8: edit(f.name, g.name, s, "selected/gain"); break;
        default: put("task_class_names", VV{{""}, {"TaskZeroSelectedVariables"}}); break;
    }
    P b;
    fails("refused", [&]() { b.readConfig<Reader>(g.name); });
    P c;
    fails("nothing to write", [&]() { c.writeConfig<Writer>(g.name); });
}
