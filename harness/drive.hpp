// runs one diagram on one engine next to the reference
#pragma once
#include "ref.hpp"

namespace ref
{
struct Plan
{
    double t0{0};
    std::vector<double> runs{};
    double hmin{1e-3}, hmax{1};
    bool explicit_init{true};
};
inline std::string plan_text(const Plan& p)
{
    return std::string(p.explicit_init ? "init " : "first run ") + mc::str(p.t0) + ", runs " + mc::str(p.runs) + " hmin=" + mc::str(p.hmin) + " hmax=" + mc::str(p.hmax);
}
// all reachable values of a loop-free model, compared after every call.  Loops: mc::Discard.
inline void drive(const Diagram& d, const BuildOpt& opt, int engine, int stepper, const Plan& plan, double tol = 1e-9)
{
    RefSim r(d, stepper);
    if (!r.init(plan.t0).empty()) throw mc::Discard{};
    auto b    = build(d, opt);
    auto st   = make_stepper(stepper);
    auto sim  = make_engine(engine, b->model(), b->inputs(), st.get());
    auto where = [&](const std::string& w) { return std::string(engine_name(engine)) + "/" + stepper_name(stepper) + ", " + plan_text(plan) + ", " + w; };
    if (plan.explicit_init)
        sim->init(plan.t0);
    else
        sim->run(plan.t0, plan.hmin, plan.hmax);
    compare(*b, r, where("after init"), tol);
    for (double t : plan.runs)
    {
        r.run(t, plan.hmin, plan.hmax);
        sim->run(t, plan.hmin, plan.hmax);
        compare(*b, r, where("after run(" + mc::str(t) + ")"), tol);
    }
}

// a stepper that takes Euler steps and decides by a script which of them to have rejected; it may ask for any
// number of additional derivatives before and after
enum Act
{
    AKeep,   // recommend the same step
    ADouble, // a longer one
    AHalf,   // have the step rejected
    AQuarter,
    AZero, // rejected with a recommendation of zero: the next step is forced
    ANumActs
};
inline double act_answer(int a, double h)
{
    return a == AKeep ? h : a == ADouble ? 2 * h : a == AHalf ? h / 2 : a == AQuarter ? h / 4 : 0;
}
struct Script
{
    std::vector<int> acts;   // the first attempts of the simulation, AKeep afterwards
    std::vector<int> extras; // number and kind of additional evaluations at each attempt (repeated), 0: none
    bool repeat{false};      // repeat acts
    int act(int k) const { return acts.empty() || (k >= int(acts.size()) && !repeat) ? int(AKeep) : acts[k % acts.size()]; }
    int extra(int k) const { return extras.empty() ? 0 : extras[k % extras.size()]; }
};
struct ScriptedStepper : pooya::StepperBase
{
    Script s;
    int n{0};
    explicit ScriptedStepper(Script x) : s(std::move(x)) {}
    void trial(const StepperCallback& cb, int kind, double t0, const Array& v0, double t1)
    {
        Array junk = kind % 2 ? Array(v0 * 2 + 3) : Array(1 - v0);
        if (kind == 0) return;
        if (kind == 1) cb(0.5 * (t0 + t1), junk);
        if (kind == 2) cb(t1, junk);
        if (kind == 3)
        {
            cb(t0, v0);
            cb(t1, junk);
            cb(t0 + 0.25 * (t1 - t0), v0);
        }
        if (kind == 4)
            for (int i = 0; i < 7; i++)
            {
                junk = v0 + (i - 3.0);
                cb(t1 - i * (t1 - t0) / 8, junk);
            }
    }
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        int e = s.extra(n);
        trial(cb, e, t0, v0, t1);
        Array k = cb(t0, v0);
        trial(cb, e, t0, v0, t1);
        v1    = v0 + (t1 - t0) * k;
        new_h = act_answer(s.act(n), t1 - t0);
        if (++n > 5000) MC_FAIL("the run does not end");
    }
};
inline std::string script_text(const Script& s) { return "answers " + mc::str(s.acts) + " additional evaluations " + mc::str(s.extras); }
inline void drive_scripted(const Diagram& d, const BuildOpt& opt, int engine, const Script& script, const Plan& plan, double tol = 1e-9)
{
    RefSim r(d, SEuler);
    int n     = 0;
    r.step_fn = [&](const DerivF& f, double t0, const Vec& v0, double t1)
    {
        RefStep s;
        Vec k = f(t0, v0);
        s.v1  = v0;
        for (std::size_t i = 0; i < k.size(); i++) s.v1[i] += (t1 - t0) * k[i];
        s.new_h = act_answer(script.act(n++), t1 - t0);
        if (n > 5000) MC_FAIL("harness: the script does not end");
        return s;
    };
    if (!r.init(plan.t0).empty()) throw mc::Discard{};
    auto b  = build(d, opt);
    auto st = std::make_shared<ScriptedStepper>(script);
    auto sim = make_engine(engine, b->model(), b->inputs(), st.get());
    auto where = [&](const std::string& w) { return std::string(engine_name(engine)) + ", " + script_text(script) + ", " + plan_text(plan) + ", " + w; };
    if (plan.explicit_init)
        sim->init(plan.t0);
    else
        sim->run(plan.t0, plan.hmin, plan.hmax);
    compare(*b, r, where("after init"), tol);
    for (double t : plan.runs)
    {
        r.run(t, plan.hmin, plan.hmax);
        sim->run(t, plan.hmin, plan.hmax);
        MC_CHECK(n == st->n, where("run(" + mc::str(t) + ")") << ": " << st->n << " attempted steps so far, expected " << n);
        compare(*b, r, where("after run(" + mc::str(t) + ")"), tol);
    }
}
// are the steps determined?  With RKF45 they are not where the error is not a number or too close to a threshold (then
// the order of the states in the state vector decides, which follows from addresses).
inline bool steps_determined(const Diagram& d, int stepper, const Plan& plan)
{
    if (stepper != SRkf45) return true;
    mc::Mute m;
    try
    {
        RefSim r(d, stepper);
        if (!r.init(plan.t0).empty()) return false;
        for (double t : plan.runs) r.run(t, plan.hmin, plan.hmax);
        return true;
    }
    catch (const mc::Discard&)
    {
        return false;
    }
}
// is the diagram free of algebraic loops and missing inputs?
inline bool evaluable(const Diagram& d)
{
    RefSim r(d, SEuler);
    r.begin(0);
    return r.evaluate(0).empty();
}
} // namespace ref
