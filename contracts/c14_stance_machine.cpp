// PROPERTY C14
// std::size_t of the stance machine is a symbolic unbounded non-negative integer here (durations, times and step counts).
#include "vp_eigen.h"
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#ifndef VP_CONCRETE
namespace std { using vp_size_t = vp::Int; }
#define size_t vp_size_t
#endif
#include "humoto/walking.h"
#undef size_t
using namespace vp;
typedef humoto::walking::StanceType ST;
typedef humoto::walking::StanceSubType SS;
typedef humoto::walking::StanceFiniteStateMachine FSM;
typedef humoto::walking::StanceFSMParameters Par;
typedef humoto::walking::Stance Stance;

static Par params()
{
    Par p;
    p.ss_duration_ms_ = isym("ss", 1, 9); p.tds_duration_ms_ = isym("tds", 1, 9); p.first_stance_duration_ms_ = isym("first", 1, 9); p.last_stance_duration_ms_ = isym("last", 1, 9);
    p.num_steps_ = isym("steps", 0, 6);
    requires_(land({ilt(Int(0), p.ss_duration_ms_), ilt(Int(0), p.tds_duration_ms_), ilt(Int(0), p.first_stance_duration_ms_), ilt(Int(0), p.last_stance_duration_ms_)}));
    return p;
}
static bool single(ST::Type t) { return t == ST::LSS || t == ST::RSS; }
static ST::Type other(ST::Type t) { return t == ST::LSS ? ST::RSS : ST::LSS; }

// an arbitrary state between two calls (the data invariant of the machine); `left` single supports are still to come
struct State { FSM f; Int left, time; };
static void inv(State &s, const Par &p, bool terminal = true)
{
    s.f.sfsm_params_ = p;
    s.left = isym("left", 0, 4); s.time = isym("time", 0, 4);
    s.f.ss_states_to_termination_ = s.left; s.f.current_time_ms_ = s.time;
    const ST::Type types[] = {ST::DS, ST::LSS, ST::RSS, ST::TDS};
    Stance &c = s.f.current_stance_;
    c.type_ = types[choose("type", 0, 3)];
    ST::Type foot = choose("last_foot", 0, 1) ? ST::RSS : ST::LSS;
    c.previous_nonds_stance_type_ = foot;
    bool first = choose("first_stance", 0, 1);
    if (c.type_ == ST::TDS) first = false;
    c.subtype_ = first ? SS::FIRST : SS::INTERMEDIATE;
    c.previous_nontds_stance_type_ = c.type_ == ST::TDS ? (choose("after_ds", 0, 1) ? ST::DS : foot) : ST::UNDEFINED;
    if (!first && c.type_ == ST::DS) { c.subtype_ = SS::LAST; s.left = Int(0); s.f.ss_states_to_termination_ = s.left; }
    if (first) c.duration_ms_ = p.first_stance_duration_ms_;
    else c.duration_ms_ = c.type_ == ST::DS ? p.last_stance_duration_ms_ : c.type_ == ST::TDS ? p.tds_duration_ms_ : p.ss_duration_ms_;
    s.f.is_tds_started_ = false;
    requires_(ilt(s.time, c.duration_ms_));
}
static Formula sameParams(const Par &a, const Par &b)
{
    return land({ieq(a.ss_duration_ms_, b.ss_duration_ms_), ieq(a.tds_duration_ms_, b.tds_duration_ms_), ieq(a.first_stance_duration_ms_, b.first_stance_duration_ms_),
                 ieq(a.last_stance_duration_ms_, b.last_stance_duration_ms_), Formula(a.first_stance_ == b.first_stance_), Formula(a.first_ss_type_ == b.first_ss_type_)});
}
static Formula sameStance(const Stance &a, const Stance &b)
{
    return land({Formula(a.type_ == b.type_), Formula(a.subtype_ == b.subtype_), Formula(a.previous_nonds_stance_type_ == b.previous_nonds_stance_type_),
                 Formula(a.previous_nontds_stance_type_ == b.previous_nontds_stance_type_), ieq(a.duration_ms_, b.duration_ms_)});
}
static Formula sameMachine(const FSM &a, const FSM &b)
{
    return land({sameStance(a.current_stance_, b.current_stance_), ieq(a.ss_states_to_termination_, b.ss_states_to_termination_), ieq(a.current_time_ms_, b.current_time_ms_), sameParams(a.sfsm_params_, b.sfsm_params_)});
}

CONTRACT(initial_state, "StanceFiniteStateMachine::{StanceFiniteStateMachine,setParameters,finalize}")
{
    Par p = params();
    p.first_stance_ = (ST::Type)choose("first_stance", 0, 4);
    p.first_ss_type_ = (ST::Type)choose("first_ss", 0, 4);
    bool again = choose("reconfigured", 0, 1);
    FSM *f = nullptr;
    std::unique_ptr<FSM> keep;
    bool bad = p.first_stance_ == ST::UNDEFINED || p.first_stance_ == ST::TDS ||
               (p.first_stance_ == ST::DS && (p.first_ss_type_ == ST::DS || p.first_ss_type_ == ST::TDS));
    auto make = [&]()
    {
        if (again) { keep.reset(new FSM()); keep->shiftStance(); keep->shiftStance(); keep->setParameters(p); }
        else keep.reset(new FSM(p));
        f = keep.get();
    };
    if (bad || holds(ieq(p.num_steps_, Int(1)))) { ensuresThrows("a plan that cannot be walked is refused", make); return; }
    make();
    const Stance &c = f->current_stance_;
    bool standing = p.first_stance_ == ST::DS && p.first_ss_type_ == ST::UNDEFINED;
    ensures("the first stance", c.type_ == p.first_stance_ && c.subtype_ == SS::FIRST);
    ensures("starts at time zero", ieq(f->current_time_ms_, Int(0)));
    ensures("duration of the first stance", ieq(c.duration_ms_, p.first_stance_duration_ms_));
    ensures("steps to make", ieq(f->ss_states_to_termination_, standing ? Int(0) : p.num_steps_));
    ensures("no transition has started", !f->is_tds_started_);
    ensures("parameters are kept", sameParams(f->sfsm_params_, p));
    if (single(p.first_stance_)) ensures("the foot on the ground", c.previous_nonds_stance_type_ == p.first_stance_);
    else if (!standing) ensures("the first single support will be on the configured foot", c.previous_nonds_stance_type_ == other(p.first_ss_type_));
}
CONTRACT(transition, "StanceFiniteStateMachine::{shiftStance,getNextStance}, StanceFSMParameters::getDurationMs")
{
    Par p = params();
    State s; inv(s, p);
    const Stance before = s.f.current_stance_;
    FSM copy = s.f;
    Stance announced = s.f.getNextStance();
    ensures("asking for the next stance changes nothing", sameMachine(s.f, copy));
    s.f.shiftStance();
    const Stance &c = s.f.current_stance_;
    ensures("the announced stance is the next one", sameStance(announced, c));
    ensures("a new stance starts", ieq(s.f.current_time_ms_, Int(0)));
    ensures("parameters are kept", sameParams(s.f.sfsm_params_, p));
    Int left = s.left;
    bool stepsLeft = before.type_ == ST::LSS || before.type_ == ST::RSS ? true : !holds(ieq(s.left, Int(0)));
    ST::Type next = single(before.type_) ? ST::TDS : !stepsLeft ? ST::DS : before.type_ == ST::DS ? ST::TDS : other(before.previous_nonds_stance_type_);
    ensures("order of stances", c.type_ == next);
    ensures("a single support uses up one step, nothing else does", ieq(s.f.ss_states_to_termination_, single(next) ? left - Int(1) : left));
    ensures("configured duration", ieq(c.duration_ms_, next == ST::DS ? p.last_stance_duration_ms_ : next == ST::TDS ? p.tds_duration_ms_ : p.ss_duration_ms_));
    if (before.type_ == ST::TDS) ensures("only the terminal stance is the last one", c.subtype_ == (next == ST::DS ? SS::LAST : SS::INTERMEDIATE));
    else if (next != ST::DS) ensures("intermediate stance", c.subtype_ == SS::INTERMEDIATE);
    ensures("the last foot on the ground is remembered", c.previous_nonds_stance_type_ == (single(before.type_) ? before.type_ : before.previous_nonds_stance_type_));
    if (before.type_ != ST::TDS) ensures("the stance before the transition is remembered", c.previous_nontds_stance_type_ == before.type_);
    if (next == ST::TDS) ensures("start of a transition is flagged", s.f.is_tds_started_);
    if (before.type_ == ST::TDS) ensures("end of a transition is not a start", !s.f.is_tds_started_);
}
CONTRACT(incorrect_state, "StanceFiniteStateMachine::shiftStance, StanceFSMParameters::getDurationMs, determineSupportFoot")
{
    Par p = params();
    State s; inv(s, p);
    ST::Type t = s.f.current_stance_.type_;
    Par q = p;
    ensures("durations by stance", land({ieq(q.getDurationMs(ST::DS), p.last_stance_duration_ms_), ieq(q.getDurationMs(ST::TDS), p.tds_duration_ms_),
                                         ieq(q.getDurationMs(ST::LSS), p.ss_duration_ms_), ieq(q.getDurationMs(ST::RSS), p.ss_duration_ms_)}));
    ensuresThrows("undefined stance has no duration", [&]() { q.getDurationMs(ST::UNDEFINED); });
    ensures("support feet", humoto::walking::determineSupportFoot(ST::LSS) == humoto::LeftOrRight::LEFT && humoto::walking::determineSupportFoot(ST::RSS) == humoto::LeftOrRight::RIGHT);
    if (!single(t)) ensuresThrows("no support foot in double support", [&]() { humoto::walking::determineSupportFoot(t); });
    s.f.current_stance_.type_ = ST::UNDEFINED;
    ensuresThrows("undefined stance is refused", [&]() { s.f.shiftStance(); });
}
// every whole walk: bounded in the number of steps
CONTRACT(whole_walk, "StanceFiniteStateMachine::{StanceFiniteStateMachine,shiftStance}")
{
    Par p = params();
    long n = size("num_steps", 0, 9, 13);
    if (n == 1) n = 6;
    requires_(ieq(p.num_steps_, Int(n))); p.num_steps_ = Int(n);
    const ST::Type fs[] = {ST::DS, ST::LSS, ST::RSS};
    p.first_stance_ = fs[choose("first_stance", 0, 2)];
    p.first_ss_type_ = choose("first_ss", 0, 1) ? ST::RSS : ST::LSS;
    FSM f(p);
    std::vector<Stance> seq;
    for (long i = 0; i < 2 * n + 6; ++i) { seq.push_back(f.current_stance_); f.shiftStance(); }
    bool startsOnFoot = single(p.first_stance_);
    long made = 0; ST::Type foot = startsOnFoot ? p.first_stance_ : ST::UNDEFINED;
    bool order = true, alternate = true, ended = false, stays = true;
    for (std::size_t i = 1; i < seq.size(); ++i)
    {
        ST::Type a = seq[i - 1].type_, b = seq[i].type_;
        if (ended) { stays = stays && b == ST::DS; continue; }
        if (single(a)) order = order && b == ST::TDS;
        if (single(b)) { ++made; if (foot != ST::UNDEFINED) alternate = alternate && b == other(foot); else alternate = alternate && b == p.first_ss_type_; foot = b; order = order && a == ST::TDS; }
        if (b == ST::DS) ended = true;
    }
    ensures("single supports are separated by double supports", order);
    ensures("feet alternate, starting with the configured one", alternate);
    ensures("exactly the configured number of steps", made == n);
    ensures("ends in the terminal double support and stays there", ended && stays);
}
CONTRACT(standing, "StanceFiniteStateMachine::{StanceFiniteStateMachine,shiftStance,shiftTime,previewStances}")
{
    Par p = params();
    p.first_stance_ = ST::DS; p.first_ss_type_ = ST::UNDEFINED;
    requires_(lnot(ieq(p.num_steps_, Int(1))));
    FSM f(p);
    f.shiftStance();
    ensures("without a foot to step with the robot keeps standing", f.current_stance_.type_ == ST::DS);
    f.shiftStance();
    ensures("without a foot to step with the robot keeps standing for ever", f.current_stance_.type_ == ST::DS);
}
// shiftTime: `changes` stance changes within the call
CONTRACT(shift_time, "StanceFiniteStateMachine::shiftTime")
{
    Par p = params();
    State s; inv(s, p);
    const long changes = size("changes", 0, 3, 6);
    FSM ref = s.f;                                       // stance changes only (contract above)
    Int base = ref.current_stance_.duration_ms_ - s.time; // time at which the next stance starts
    Int start = Int(0);
    for (long i = 0; i < changes; ++i) { start = base; ref.shiftStance(); base = base + ref.current_stance_.duration_ms_; }
    Int t = isym("elapsed", 0, 12);
    requires_(land({ile(start, t), ilt(t, base)}));
    const FSM old = s.f;
    s.f.shiftTime(t);
    ensures("the stance in force at that time", sameStance(s.f.current_stance_, ref.current_stance_));
    ensures("steps left", ieq(s.f.ss_states_to_termination_, ref.ss_states_to_termination_));
    ensures("time within the stance: exactly the elapsed time is consumed", ieq(s.f.current_time_ms_, changes == 0 ? s.time + t : t - start));
    ensures("parameters are kept", sameParams(s.f.sfsm_params_, p));
    if (!holds(ieq(t, Int(0))))
    {
        bool at = holds(ieq(s.f.current_time_ms_, Int(0)));
        if (ref.current_stance_.type_ != ST::DS) ensures("a transition is flagged exactly when it starts now", s.f.is_tds_started_ == (at && ref.current_stance_.type_ == ST::TDS));
        else if (!at) ensures("no transition starts within a stance", !s.f.is_tds_started_);
    }
}
CONTRACT(shift_time_splits, "StanceFiniteStateMachine::shiftTime")
{
    Par p = params();
    State s; inv(s, p);
    FSM ref = s.f;
    Int limit = ref.current_stance_.duration_ms_ - s.time;
    ref.shiftStance(); limit = limit + ref.current_stance_.duration_ms_;
    Int a = isym("a", 0, 6), b = isym("b", 0, 6);
    requires_(ilt(a + b, limit));
    FSM one = s.f, two = s.f;
    one.shiftTime(a + b);
    two.shiftTime(a); two.shiftTime(b);
    ensures("shifting in two pieces is shifting at once", sameMachine(one, two));
}
CONTRACT(preview, "StanceFiniteStateMachine::previewStances")
{
    Par p = params();
    State s; inv(s, p);
    const long changes = size("changes", 0, 3, 6);
    FSM ref = s.f;
    std::vector<Stance> seq; std::vector<Int> length;
    Int start = Int(0), end = ref.current_stance_.duration_ms_ - s.time;
    bool finished = false;
    for (long i = 0; i < changes; ++i)
    {
        seq.push_back(ref.current_stance_); length.push_back(end - start);
        if (ref.current_stance_.type_ == ST::DS && holds(ieq(ref.ss_states_to_termination_, Int(0)))) { finished = true; break; }
        ref.shiftStance();
        start = end; end = end + ref.current_stance_.duration_ms_;
    }
    Int t = isym("preview", 0, 12);
    if (finished) requires_(ilt(end, t));                          // the plan ends within the preview
    else { requires_(land({ile(t, end), changes ? ilt(start, t) : ile(start, t)})); seq.push_back(ref.current_stance_); length.push_back(t - start); }
    const FSM old = s.f;
    std::vector<Stance> v = s.f.previewStances(t);
    ensures("previewing does not disturb the machine", land({sameMachine(s.f, old), Formula(s.f.is_tds_started_ == old.is_tds_started_)}));
    if (finished)
    {
        seq.pop_back();                                            // a terminal stance that ends within the preview is not listed
        ensures("stances up to the end of the plan", v.size() == seq.size());
    }
    else if (holds(ieq(t, Int(0)))) { ensures("an empty preview", v.empty()); return; }
    else
    {
        bool opened = seq.back().type_ == ST::TDS;                 // a transition at the end is followed by the stance it leads to
        ensures("stances within the preview", v.size() == seq.size() + (opened ? 1 : 0));
        if (opened && v.size() == seq.size() + 1)
        {
            ref.shiftStance();
            Stance e = ref.current_stance_; e.duration_ms_ = Int(0);
            ensures("the stance after the transition is announced without duration", sameStance(v.back(), e));
        }
        Int sum = Int(0);
        for (auto &x : v) sum = sum + x.duration_ms_;
        ensures("durations add up to the preview", ieq(sum, t));
    }
    for (std::size_t i = 0; i < seq.size() && i < v.size(); ++i)
    {
        ensures("total duration of the stance", ieq(v[i].total_duration_ms_, seq[i].duration_ms_));
        Stance e = seq[i]; e.duration_ms_ = length[i];
        ensures("each listed stance is the executed one, for the time it lasts", sameStance(v[i], e));
    }
}
