// C24: the derivative seen by the stepper is a function of time and state; trial evaluations leave no trace.
#include "drive.hpp"
using namespace ref;

// a model with the given kind of block between the states and their derivatives
static const int NumModels = 16;
static Diagram model(int kind, bool from_state, Ty ty, int size)
{
    Diagram d;
    int x = d.sig(ty, size), dx = d.sig(ty, size);
    int u   = d.input(kind % 3, ty, size);
    int in  = from_state ? x : u;
    Val ini = ty == TA ? Val(TA, std::vector<double>(size, 0.75)) : Val(0.75);
    int y   = -1;
    auto add = [&](Kind k, std::vector<int> i, Val p = Val(), double dd = 0, int fn = 0) { return d.add(k, std::move(i), std::move(p), dd, fn, ty, size); };
    switch (kind)
    {
    case 0: y = add(KMem, {in}, ini); break;
    case 1: y = add(KMem, {add(KMem, {in}, ini)}, ini); break;
    case 2: y = add(KDelay, {in, d.add(KConst, {}, Val(0.3)), add(KConst, {}, ini)}, Val(), 2); break;
    case 3: y = add(KDelay, {in, d.add(KSource, {}, Val(), 0, 2), add(KSource, {}, Val(), 0, 1)}, Val(), 10); break;
    case 4: y = add(KDeriv, {in}, ini); break;
    case 5: y = add(KInit, {in}); break;
    case 6: // a restarting state, triggered by another state
    {
        Node f;
        f.k   = KFunc;
        f.in  = {x, u};
        f.out = {d.sig(TB)};
        d.nodes.push_back(f);
        y = add(KTrig, {in, f.out[0]}, ini);
        break;
    }
    case 7: y = add(KTrig, {u, d.add(KSource, {}, Val(), 0, 1, TB)}, ini); break;
    case 8: // ints and booleans that follow the state
    {
        Node f;
        f.k   = KFunc;
        f.in  = {x, u};
        f.out = {d.sig(TI), d.sig(TB)};
        d.nodes.push_back(f);
        int mi = d.add(KMem, {f.out[0]}, Val(TI, {3}), 0, 0, TI), mb = d.add(KMem, {f.out[1]}, Val(TB, {1}), 0, 0, TB);
        y = add(KSo, {mi, mb, x});
        break;
    }
    case 9: y = add(KSub, {in, u}); break;
    case 10: y = add(KSiso, {add(KPipe, {add(KGain, {in}, Val(), -0.5)})}, Val(), 0, 1); break;
    case 11: y = add(KAdd, {in, add(KSource, {}, Val(), 0, 5), u}, ini); break;
    case 12: // sources with several outputs
    {
        Node f;
        f.k   = KSources;
        f.fn  = 1;
        f.out = {d.sig(ty, size), d.sig(TI)};
        d.nodes.push_back(f);
        y = add(KSo, {f.out[0], f.out[1], x});
        break;
    }
    case 13: y = add(KInteg, {add(KSub, {u, x})}, ty == TA ? Val(TA, std::vector<double>(size, -1.5)) : Val(-1.5)); break; // a second, coupled state
    case 14:
    {
        int m = d.sig(ty, size); // a memory in a loop
        int a = add(KAdd, {m, in}, ini);
        d.add(KMem, {a}, ini, 0, 0, ty, size, m);
        y = add(KGain, {a}, Val(), 0.25);
        break;
    }
    default: y = add(KDeriv, {add(KMem, {in}, ini)}, ini);
    }
    int s = add(KSo, {y, x}, Val(), 0, kind % 4);
    int g = add(KGain, {s}, Val(), -0.25);
    d.add(KPipe, {g}, Val(), 0, 0, ty, size, dx);
    // (a start value of its own: the probing stepper tells the states by their values)
    d.add(KInteg, {dx}, ty == TA ? Val(TA, std::vector<double>(size, 0.5)) : Val(0.5), 0, 0, ty, size, x);
    return d;
}
struct Probe
{
    int when; // time: start, inside, end, beyond
    int what; // state: as given, others
};
static double probe_time(int w, double t0, double t1) { return w == 0 ? t0 : w == 1 ? t0 + 0.375 * (t1 - t0) : w == 2 ? t1 : t1 + 0.5; }
static Array probe_state(int w, const Array& v)
{
    Array r = v;
    for (int i = 0; i < r.size(); i++) r[i] = w == 0 ? v[i] : w == 1 ? v[i] * 2 + 3 + i : -v[i] - 1.25;
    return r;
}
struct Probing : pooya::StepperBase
{
    std::vector<std::vector<Probe>> plan; // per attempt, repeated
    std::vector<int> acts;
    std::vector<std::unique_ptr<RefSim>> at; // the reference at the beginning of each attempt
    std::string where;
    std::vector<int> perm; // position in the stepper's vector of each of the reference's states
    bool ends{false};
    int n{0};
    int act() const { return n < int(acts.size()) ? acts[n] : int(AKeep); }
    // which state is where is up to the library; it shows in the values
    void match(const Array& v0)
    {
        auto& r   = *at[n];
        Vec want  = r.get_states();
        if (v0.size() != int(want.size())) MC_FAIL(where << ": " << v0.size() << " states, expected " << want.size());
        auto fits = [&](const std::vector<int>& p)
        {
            for (std::size_t i = 0; i < want.size(); i++)
                if (!mc::close(v0[p[i]], want[i], 1e-9)) return false;
            return true;
        };
        if (!perm.empty() && fits(perm)) return;
        std::size_t blocks = r.state_nodes.size(), m = want.size() / blocks;
        std::vector<int> order(blocks);
        for (std::size_t i = 0; i < blocks; i++) order[i] = int(i);
        do
        {
            std::vector<int> p;
            for (int b : order)
                for (std::size_t i = 0; i < m; i++) p.push_back(b * int(m) + int(i));
            if (perm.empty() && fits(p))
            {
                perm = p;
                return;
            }
        } while (std::next_permutation(order.begin(), order.end()));
        MC_FAIL(where << ": attempt " << n << ": the states are " << mc::str(Vec(v0.data(), v0.data() + v0.size())) << ", expected " << mc::str(want) << " in this or another order; " << r.d.text());
    }
    // the trial state, the same whatever the order of the states is
    Array trial(int what, const Array& v)
    {
        Array o(v.size()), r(v.size());
        for (std::size_t i = 0; i < perm.size(); i++) o[int(i)] = v[perm[i]];
        o = probe_state(what, o);
        for (std::size_t i = 0; i < perm.size(); i++) r[perm[i]] = o[int(i)];
        return r;
    }
    void check(const StepperCallback& cb, double t, const Array& v)
    {
        Array got = cb(t, v);
        Vec vv(perm.size());
        for (std::size_t i = 0; i < perm.size(); i++) vv[i] = v[perm[i]];
        Vec want = at[n]->deriv(t, vv);
        if (got.size() != int(want.size())) MC_FAIL(where << ": " << got.size() << " derivatives, expected " << want.size());
        for (std::size_t i = 0; i < want.size(); i++)
        {
            mc::ex.observe(want[i]);
            if (!mc::close(got[perm[i]], want[i], 1e-9))
                MC_FAIL(where << ": attempt " << n << ": derivative " << i << " at t=" << t << " for the state " << mc::str(vv) << " is " << got[perm[i]] << ", expected " << want[i] << "; " << at[n]->d.text());
        }
    }
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        if (n >= int(at.size())) MC_FAIL(where << ": more attempted steps than expected");
        match(v0);
        Array keep = v0;
        auto& pr   = plan[n % plan.size()];
        for (auto& p : pr) check(cb, probe_time(p.when, t0, t1), trial(p.what, keep));
        Array k = cb(t0, keep);
        for (auto& p : pr) check(cb, probe_time(p.when, t0, t1), trial(p.what, keep));
        v1    = keep + (t1 - t0) * k;
        // where the next step starts, if this one is accepted
        if (ends) check(cb, t1, Array(v1));
        new_h = act_answer(act(), t1 - t0);
        n++;
    }
};
static void run_probing(const Diagram& d, int eng, const std::vector<std::vector<Probe>>& plan, const std::vector<int>& acts, const std::vector<double>& runs, double hmax, bool reversed)
{
    RefSim r(d, SEuler);
    BuildOpt o;
    if (reversed)
        for (int i = int(d.nodes.size()); i-- > 0;) o.order.push_back(i);
    if (!r.init(0).empty()) throw mc::Discard{};
    auto b    = build(d, o);
    auto st   = std::make_shared<Probing>();
    st->plan  = plan;
    st->acts  = acts;
    st->ends  = mc::spread(2);
    st->where = std::string(engine_name(eng)) + ", answers " + mc::str(acts);
    auto sim  = make_engine(eng, b->model(), b->inputs(), st.get());
    sim->init(0);
    compare(*b, r, "after init");
    int n     = 0;
    r.step_fn = [&](const DerivF& f, double t0, const Vec& v0, double t1)
    {
        st->at.push_back(std::make_unique<RefSim>(r));
        RefStep s;
        Vec k = f(t0, v0);
        s.v1  = v0;
        for (std::size_t i = 0; i < k.size(); i++) s.v1[i] += (t1 - t0) * k[i];
        s.new_h = act_answer(n < int(acts.size()) ? acts[n] : int(AKeep), t1 - t0);
        n++;
        return s;
    };
    for (double t : runs)
    {
        r.run(t, 1.0 / 32, hmax);
        sim->run(t, 1.0 / 32, hmax);
        MC_CHECK(st->n == n, st->where << ": " << st->n << " attempted steps, expected " << n);
        compare(*b, r, st->where + ", after run(" + mc::str(t) + ")", 1e-8);
    }
}
static std::vector<Probe> probes(int n)
{
    std::vector<Probe> p;
    for (int i = 0; i < n; i++)
    {
        int k = choose(12);
        p.push_back({k % 4, k / 4});
    }
    return p;
}
static Diagram pick_model(int& kind)
{
    kind     = choose(NumModels);
    bool fs  = choose(2) == 1;
    int s    = mc::ex.thorough ? choose(3) : choose(2) * 2;
    return model(kind, fs, s ? TA : TS, s == 2 ? 3 : 1);
}
// every sequence of trial evaluations before and after the one that counts
static void sequences()
{
    int kind;
    Diagram d = pick_model(kind);
    auto p1 = probes(mc::ex.thorough ? 3 : 2);
    int eng = mc::ex.thorough ? choose(3) : (kind + p1[0].when + p1[1].what) % 3;
    MC_LOG(d.text());
    run_probing(d, eng, {p1, {}, p1}, {}, {0.75, 1.25}, 0.5, (kind + p1[0].what) % 2);
}
// together with every sequence of rejections
static void rejections()
{
    int kind;
    Diagram d = pick_model(kind);
    std::vector<int> acts;
    for (int i = 0; i < (mc::ex.thorough ? 4 : 3); i++) acts.push_back(choose(ANumActs));
    int eng = mc::ex.thorough ? choose(3) : (kind + acts[0] + acts[2]) % 3;
    MC_LOG(d.text() << mc::str(acts));
    run_probing(d, eng, {{{1, 1}, {2, 2}}, {{3, 1}}, {}}, acts, {0.75, 1.25, 1.5}, 0.5, (kind + eng) % 2);
}
// a library stepper, and around each of its evaluations any number of others
struct Noisy : pooya::StepperBase
{
    std::shared_ptr<pooya::StepperBase> inner;
    int before{0}, after{0}, around{0}; // kinds of noise
    std::vector<double> recommended;
    void noise(const StepperCallback& cb, int kind, double t0, double t1, const Array& v0)
    {
        for (int i = 0; i < (kind == 3 ? 6 : kind); i++) cb(probe_time((kind + i) % 4, t0, t1), probe_state((i + 1) % 3, v0));
    }
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        Array keep = v0;
        noise(cb, before, t0, t1, keep);
        Array last;
        inner->step(
            [&](double t, const Array& v) -> const Array&
            {
                Array vv = v;
                noise(cb, around, t0, t1, vv);
                last = cb(t, vv);
                noise(cb, around, t0, t1, vv);
                return last;
            },
            t0, keep, t1, v1, new_h);
        recommended.push_back(new_h);
        Array res = v1;
        noise(cb, after, t0, t1, keep);
        v1 = res;
    }
};
static void noisy()
{
    int kind;
    Diagram d = pick_model(kind);
    int eng = choose(3), stp = choose(3);
    auto quiet = std::make_shared<Noisy>(), loud = std::make_shared<Noisy>();
    int k         = choose(mc::ex.thorough ? 63 : 15) + 1;
    loud->before  = k % 4;
    loud->after   = k / 4 % 4;
    loud->around  = mc::ex.thorough ? k / 16 : (k + kind) % 4;
    if (!steps_determined(d, stp, {0, {0.75, 1.0, 2.0}, 0.0625, 0.5, true})) throw mc::Discard{};
    quiet->inner  = make_stepper(stp);
    loud->inner   = make_stepper(stp);
    auto a = build(d), b = build(d);
    auto sa = make_engine(eng, a->model(), a->inputs(), quiet.get()), sb = make_engine(eng, b->model(), b->inputs(), loud.get());
    sa->init(0);
    sb->init(0);
    std::string what = std::string(engine_name(eng)) + "/" + stepper_name(stp) + " with and without additional evaluations (" + std::to_string(loud->before) + " " + std::to_string(loud->after) + " " + std::to_string(loud->around) + ")";
    for (double t : {0.75, 1.0, 2.0})
    {
        sa->run(t, 0.0625, 0.5);
        sb->run(t, 0.0625, 0.5);
        if (quiet->recommended.size() != loud->recommended.size()) MC_FAIL(what << ": " << loud->recommended.size() << " steps instead of " << quiet->recommended.size() << "; " << d.text());
        for (std::size_t i = 0; i < a->sig.size(); i++)
        {
            MC_CHECK(assigned(a->sig[i]) == assigned(b->sig[i]), what << ": signal x" << i << " assigned");
            if (!assigned(a->sig[i])) continue;
            Val va = read(a->sig[i]), vb = read(b->sig[i]);
            for (double x : va.v) mc::ex.observe(x);
            if (!close(va, vb, 1e-12)) MC_FAIL(what << ", t=" << t << ": signal x" << i << " is " << vb << " instead of " << va << "; " << d.text());
        }
    }
}
// the same accepted steps, once with rejected attempts between them and once without
static void same_steps()
{
    int kind;
    Diagram d = pick_model(kind);
    std::vector<int> acts;
    for (int i = 0; i < (mc::ex.thorough ? 5 : 3); i++) acts.push_back(choose(ANumActs));
    int eng = mc::ex.thorough ? choose(3) : (kind + acts[0] + acts[2]) % 3;
    if (!evaluable(d)) throw mc::Discard{};
    auto a = build(d), b = build(d);
    Script s;
    s.acts   = acts;
    s.extras = {3};
    auto st1 = std::make_shared<ScriptedStepper>(s), st2 = std::make_shared<ScriptedStepper>(Script{});
    // a block of its own notes the accepted steps
    struct Note : pooya::Submodel
    {
        std::vector<double> t;
        using pooya::Submodel::Submodel;
        void post_step(double x) override
        {
            t.push_back(x);
            pooya::Submodel::post_step(x);
        }
    };
    Note note(&a->model(), "note");
    auto sa = make_engine(eng, a->model(), a->inputs(), st1.get()), sb = make_engine(eng, b->model(), b->inputs(), st2.get());
    sa->init(0);
    sb->init(0);
    for (double t : {0.75, 1.25})
    {
        note.t.clear();
        sa->run(t, 1.0 / 32, 0.5);
        for (double x : note.t) sb->run(x, 1.0 / 32, 10); // each of them as a run of its own
        for (std::size_t i = 0; i < a->sig.size(); i++)
        {
            if (!assigned(a->sig[i]) && !assigned(b->sig[i])) continue;
            Val va = read(a->sig[i]), vb = read(b->sig[i]);
            for (double x : va.v) mc::ex.observe(x);
            if (!close(va, vb, 1e-9)) MC_FAIL(engine_name(eng) << ", answers " << mc::str(acts) << ", t=" << t << ": signal x" << i << " is " << va << ", with the same accepted steps taken at once " << vb << "; " << d.text());
        }
    }
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv, {{"trial evaluations", sequences}, {"with rejections", rejections}, {"around library steppers", noisy}, {"same accepted steps", same_steps}});
}
