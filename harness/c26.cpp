// C26: a call that fails leaves a consistent simulation behind.
#include "drive.hpp"
using namespace ref;

// every place at which the program's own code runs inside the library can be made to throw
struct Boom : std::runtime_error
{
    Boom() : std::runtime_error("boom") {}
};
struct Fuse
{
    int n{0}, at{-1}; // at: throw at the place with this number, -1: never
    void tick()
    {
        if (n++ == at) throw Boom();
    }
};
struct Note : pooya::Submodel // notes the accepted steps
{
    std::vector<double> t;
    Fuse* f{nullptr};
    using pooya::Submodel::Submodel;
    void pre_step(double x) override
    {
        pooya::Submodel::pre_step(x);
        f->tick();
    }
    void post_step(double x) override
    {
        t.push_back(x);
        pooya::Submodel::post_step(x);
    }
};
struct FuseStepper : pooya::StepperBase
{
    std::shared_ptr<pooya::StepperBase> inner;
    Fuse* f{nullptr};
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        f->tick();
        inner->step(
            [&](double t, const Array& v) -> const Array&
            {
                const Array& r = cb(t, v);
                f->tick();
                return r;
            },
            t0, v0, t1, v1, new_h);
        f->tick();
    }
};
static Diagram model(int id)
{
    Diagram d;
    int u = d.input(0);
    if (id == 4) // without integrators
    {
        int m = d.add(KMem, {u}, Val(7));
        d.add(KDeriv, {u}, Val(2));
        int c = d.add(KConst, {}, Val(0.3));
        d.add(KDelay, {u, c, m}, Val(), 3);
        d.add(KAdd, {u, m}, Val(1));
        d.add(KMem, {m}, Val(5));
        return d;
    }
    int dx = d.sig();
    int x  = d.add(KInteg, {dx}, Val(1.5));
    if (id == 0)
    {
        int v = d.input(3, TA, 2);
        d.add(KPipe, {v}, Val(), 0, 0, TA, 2);
        d.add(KSub, {u, x}, Val(), 0, 0, TS, 1, dx);
        d.add(KMem, {u}, Val(3));
    }
    else if (id == 1)
    {
        int m  = d.add(KMem, {x}, Val(4));
        int tr = d.add(KSource, {}, Val(), 0, 1, TB);
        int y  = d.add(KTrig, {m, tr}, Val(2));
        d.add(KAdd, {m, u, y}, Val(0.25), 0, 0, TS, 1, dx);
        d.add(KMem, {dx}, Val(-1));
        d.add(KMem, {tr}, Val(TB, {1}), 0, 0, TB);
    }
    else if (id == 2)
    {
        int g  = d.add(KConst, {}, Val(0.375));
        int dl = d.add(KDelay, {x, g, u}, Val(), 2);
        d.add(KDeriv, {dl}, Val(0.5));
        d.add(KSub, {dl, u}, Val(), 0, 0, TS, 1, dx);
        d.add(KInit, {x}, Val());
    }
    else
    {
        int a  = d.add(KSource, {}, Val(), 0, 1, TA, 3);
        int da = d.sig(TA, 3);
        int z  = d.add(KInteg, {da}, Val(TA, {1, 2, 3}), 0, 0, TA, 3);
        d.add(KSub, {a, z}, Val(), 0, 0, TA, 3, da);
        d.add(KMem, {z}, Val(TA, {0, 0, 1}), 0, 0, TA, 3);
        d.add(KDeriv, {z}, Val(TA, {0, 0, 1}), 0, 0, TA, 3);
        d.add(KSo, {z, x, u}, Val(), 0, 1, TS, 1, dx);
    }
    return d;
}
struct World
{
    Diagram d;
    Fuse fuse;
    std::unique_ptr<Built> b;
    std::vector<std::unique_ptr<pooya::Block>> extra;
    std::vector<pooya::Signal> extra_sig;
    std::unique_ptr<Note> note;
    std::shared_ptr<FuseStepper> st;
    std::unique_ptr<pooya::SimulatorBase> sim;
    int eng, stp;

    World(int id, int e, int s) : d(model(id)), eng(e), stp(s)
    {
        b = build(d);
        // user functions that can throw: behind a signal, and without any input
        for (int i = 0; i < 2; i++)
        {
            pooya::ScalarSignal o("probe" + std::to_string(i));
            extra_sig.push_back(o);
            if (i == 0)
            {
                extra.push_back(std::make_unique<pooya::SISOFunction>(
                    [this](double, double v)
                    {
                        fuse.tick();
                        return v;
                    },
                    &b->model(), "probe"));
                extra.back()->connect({first_scalar()}, {o});
            }
            else
            {
                extra.push_back(std::make_unique<pooya::Source>(
                    [this](double t)
                    {
                        fuse.tick();
                        return t;
                    },
                    &b->model(), "clock"));
                extra.back()->connect({}, {o});
            }
        }
        note     = std::make_unique<Note>(&b->model(), "note");
        note->f  = &fuse;
        st       = std::make_shared<FuseStepper>();
        st->inner = make_stepper(stp);
        st->f    = &fuse;
        sim      = engine(eng);
    }
    std::unique_ptr<pooya::SimulatorBase> engine(int e)
    {
        auto in = b->inputs(0);
        return make_engine(
            e, b->model(),
            [this, in](pooya::Block& m, double t)
            {
                fuse.tick();
                in(m, t);
                fuse.tick();
            },
            st.get());
    }
    // a computed scalar signal
    pooya::Signal first_scalar()
    {
        for (std::size_t i = d.sigs.size(); i-- > 0;)
            if (d.sigs[i].ty == TS && d.sigs[i].input < 0) return b->sig[i];
        MC_FAIL("harness: no scalar");
    }
    // true if the call threw
    template<typename F>
    bool fails(F&& f)
    {
        try
        {
            f();
        }
        catch (const Boom&)
        {
            return true;
        }
        return false;
    }
};
// the number of places at which a call can fail
template<typename F>
static int places(int id, int eng, int stp, int call, F&& f)
{
    static std::map<std::vector<int>, int> cache;
    auto& n = cache[{id, eng, stp, call}];
    if (n) return n;
    mc::Mute m;
    World w(id, eng, stp);
    f(w);
    return n = w.fuse.n;
}
// the reference takes the steps the blocks were told about, each as a run of its own
static void follow(World& w, RefSim& r, std::size_t& seen)
{
    for (; seen < w.note->t.size(); seen++) r.run(w.note->t[seen], 1e6, 2e6);
}
static void check_steps(const World& w, std::size_t from, double start, double target, double hmax, const std::string& txt)
{
    double last = start;
    for (std::size_t i = from; i < w.note->t.size(); i++)
    {
        double t = w.note->t[i];
        MC_CHECK(t > last && t - last <= hmax * (1 + 1e-12), txt << ": a step from " << last << " to " << t);
        last = t;
    }
    MC_CHECK(last == target, txt << ": the steps end at " << last << " instead of " << target);
}
static void same_values(World& w, RefSim& r, const std::string& txt)
{
    compare(*w.b, r, txt);
}

static void failing_run()
{
    int id  = choose(5), eng = choose(3);
    int stp = id == 4 ? 0 : choose(3);
    double hmax = 0.25, hmin = 1e-3;
    const double t0 = 0.5, T = 1.25;
    int warm = mc::ex.thorough ? choose(2) : mc::spread(2); // is there a run before?
    double start = warm ? 0.75 : t0;
    auto prepare = [&](World& w)
    {
        w.sim->init(t0);
        if (warm) w.sim->run(start, hmin, hmax);
    };
    int total = places(id, eng, stp, warm, [&](World& w) { prepare(w); w.fuse.n = 0; w.sim->run(T, hmin, hmax); });
    int at    = choose(total);
    int retry = mc::ex.thorough ? choose(7) : (choose(3) * 2 + at + id + eng) % 7;
    int times = 1 + mc::spread(3); // so many failures before
    World w(id, eng, stp);
    RefSim r(w.d, stp);
    if (!r.init(t0).empty()) throw mc::Discard{};
    prepare(w);
    std::size_t seen = 1; // init
    follow(w, r, seen);
    std::string txt = std::string(engine_name(eng)) + "/" + stepper_name(stp) + ", model " + std::to_string(id) + ": run(" + mc::str(T) + ") from " + mc::str(start) + " fails at place " + std::to_string(at) + " of " + std::to_string(total);
    double reached = start;
    for (int i = 0; i < times; i++)
    {
        w.fuse.n  = 0;
        w.fuse.at = i == 0 ? at : at / (i + 1);
        bool threw = w.fails([&] { w.sim->run(T, hmin, hmax); });
        w.fuse.at  = -1;
        if (i == 0 && !threw) MC_FAIL(txt << ": no exception arrives");
        std::size_t k = w.note->t.size();
        for (std::size_t j = seen; j < k; j++)
        {
            MC_CHECK(id == 4 || w.note->t[j] > reached || (reached == T && w.note->t[j] == T), txt << ": after a failure the blocks are told about a step from " << reached << " to " << w.note->t[j]);
            reached = w.note->t[j];
        }
        follow(w, r, seen);
        if (!threw) break; // it needed fewer places than the failing one had
    }
    txt += ", " + std::to_string(times) + " failures; the blocks have reached " + mc::str(reached);
    MC_LOG(txt << " retry " << retry);
    std::size_t from = w.note->t.size();
    double target = T;
    bool init_first = false;
    switch (retry)
    {
    case 0: break;
    case 1: target = T + 0.5; break;
    case 2: target = reached; break;
    case 3: // initialised again
        w.sim->init(reached);
        init_first = true;
        txt += ", init";
        break;
    case 4: // by another simulator
        w.sim = w.engine((eng + 1 + mc::spread(2)) % 3);
        w.sim->init(reached);
        init_first = true;
        txt += ", another simulator";
        break;
    case 5: // running back is rejected
        if (id == 4 || reached == t0) throw mc::Discard{};
        MC_CHECK(mc::throws([&] { w.sim->run(std::nextafter(reached, 0), hmin, hmax); }), txt << ": running back does not throw");
        MC_CHECK(w.note->t.size() == from, txt << ": a step back");
        break;
    default: target = reached + 0.125; break;
    }
    if (init_first)
    {
        MC_CHECK(w.note->t.size() == from + 1 && w.note->t[from] == reached, txt << ": the initialisation is not a step");
        seen++;
        from++;
        r.init(reached);
        same_values(w, r, txt);
    }
    w.sim->run(target, hmin, hmax);
    if (id == 4 || (target == reached))
        MC_CHECK(w.note->t.size() == from + 1 && w.note->t[from] == target, txt << ": repeated by run(" << target << "): " << w.note->t.size() - from << " steps");
    else
        check_steps(w, from, reached, target, hmax, txt + ", then run(" + mc::str(target) + ")");
    follow(w, r, seen);
    same_values(w, r, txt + ", then run(" + mc::str(target) + ")");
    w.sim->run(target + 0.5, hmin, hmax);
    check_steps(w, w.note->t.size() - (id == 4 ? 1 : w.note->t.size() - seen), target, target + 0.5, id == 4 ? 1 : hmax, txt + ", then two runs");
    follow(w, r, seen);
    same_values(w, r, txt + ", then two runs");
}
// the initialisation fails: the simulator is not initialised
static void failing_init()
{
    int id  = choose(5), eng = choose(3);
    int stp = id == 4 ? 0 : choose(2);
    int before = choose(3); // 0: the first one, 1: after a run, 2: the first one, as a run call
    const double t0 = 0.5, hmin = 1e-3, hmax = 0.25;
    double at_t = before == 1 ? 1.0 : t0;
    auto prepare = [&](World& w)
    {
        if (before != 1) return;
        w.sim->init(t0);
        w.sim->run(1, hmin, hmax);
    };
    auto call = [&](World& w)
    {
        if (before == 2)
            w.sim->run(at_t, hmin, hmax);
        else
            w.sim->init(at_t);
    };
    int total = places(id, eng, stp, 2 + before, [&](World& w) { prepare(w); w.fuse.n = 0; call(w); });
    int at    = choose(total);
    int retry = choose(4);
    int times = 1 + mc::spread(2);
    World w(id, eng, stp);
    RefSim r(w.d, stp);
    prepare(w);
    std::size_t seen = 0;
    if (before == 1)
    {
        r.init(t0);
        seen = 1;
        follow(w, r, seen);
    }
    std::string txt = std::string(engine_name(eng)) + "/" + stepper_name(stp) + ", model " + std::to_string(id) + (before == 1 ? ": a second" : ": the first") + (before == 2 ? " run call" : " init") + " fails at place " + std::to_string(at) + " of " + std::to_string(total);
    for (int i = 0; i < times; i++)
    {
        w.fuse.n  = 0;
        w.fuse.at = at;
        if (!w.fails([&] { call(w); })) MC_FAIL(txt << ": no exception arrives");
        w.fuse.at = -1;
        MC_CHECK(w.note->t.size() == seen, txt << ": the blocks are told about a step");
    }
    MC_LOG(txt << " retry " << retry);
    double t = at_t;
    switch (retry)
    {
    case 0: w.sim->init(t); break;
    case 1: w.sim->run(t, hmin, hmax); break;
    case 2:
        if (id == 2 && before != 1) throw mc::Discard{}; // the initial-value block may have taken its value already
        t += 0.375;
        w.sim->run(t, hmin, hmax);
        break;
    default:
        w.sim = w.engine((eng + 1) % 3);
        w.sim->run(t, hmin, hmax);
    }
    MC_CHECK(w.note->t.size() == seen + 1 && w.note->t.back() == t, txt << ": the next call initialises at " << t << " but the blocks are told about " << w.note->t.size() - seen << " steps");
    seen++;
    r.init(t);
    same_values(w, r, txt + ", made up for at " + mc::str(t) + " (" + std::to_string(retry) + ")");
    w.sim->run(t + 0.5, hmin, hmax);
    check_steps(w, w.note->t.size() - (id == 4 ? 1 : w.note->t.size() - seen), t, t + 0.5, id == 4 ? 1 : hmax, txt + ", made up for, run");
    follow(w, r, seen);
    same_values(w, r, txt + ", made up for, run");
}
// a model the fast simulator refuses is refused by every call until it is made evaluable
static void refused()
{
    int shape = choose(4);
    int calls = choose(8); // bit i: call i is a run (else init)
    int later = choose(3); // when does the missing input appear?
    Diagram d;
    int u = d.input(0), v = d.input(1);
    int m = d.add(KMem, {v}, Val(3));
    int g = d.add(KGain, {u}, Val(), 2);
    int a = d.add(KAdd, {g, m}, Val(0.5));
    if (shape & 1) d.add(KInteg, {a}, Val(1));
    if (shape & 2) d.add(KSub, {a, v});
    auto call  = std::make_shared<int>(0);
    d.input_fn = [=, sg = d.sigs](int i, double t, Val& x)
    {
        if (i == u && *call < later) return false;
        x = src_val(sg[i].input, t, TS, 1);
        return true;
    };
    auto b   = build(d);
    auto st  = make_stepper(SEuler);
    auto sim = make_engine(EFast, b->model(), b->inputs(), st.get());
    RefSim r(d, SEuler);
    bool started = false;
    for (*call = 0; *call < 3; ++*call)
    {
        double t = 0.5 + 0.25 * *call;
        bool run = calls >> *call & 1;
        bool threw = mc::throws([&] { run ? sim->run(t, 1e-3, 1) : sim->init(t); });
        std::string txt = "call " + std::to_string(*call) + " (" + (run ? "run" : "init") + "), the input is there from call " + std::to_string(later) + " on";
        MC_LOG(txt << " " << threw);
        MC_CHECK(threw == (*call < later), txt << ": " << (threw ? "throws" : "the model is accepted although it cannot be evaluated") << "; " << d.text());
        if (threw) continue;
        if (run && started)
            r.run(t, 1e-3, 1);
        else
            r.init(t);
        started = true;
        compare(*b, r, txt);
    }
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv, {{"runs that fail", failing_run}, {"initialisations that fail", failing_init}, {"models that are refused", refused}});
}
