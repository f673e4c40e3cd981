// C01: signal values are those of the diagram's equations, whatever the order, nesting and engine.
#include "drive.hpp"
using namespace ref;

static const Plan plan_a{0.5, {0.75, 1.75}, 1e-3, 0.5, true};

// all wirings of n blocks; enumerating the labelled wirings covers every creation order of every diagram
static void wirings(int n, const std::vector<Kind>& kinds, int engine_lo, int engine_hi)
{
    Diagram d;
    int e = d.input(0);
    std::vector<int> outs{e};
    for (int i = 0; i < n; i++) outs.push_back(d.sig());
    for (int i = 0; i < n; i++)
    {
        Kind k = pick(kinds);
        int ni = (k == KSub || k == KSo) ? 2 : (k == KSource || k == KConst) ? 0 : 1;
        std::vector<int> in;
        for (int j = 0; j < ni; j++) in.push_back(pick(outs));
        d.add(k, in, Val(1.5 + i), 2, i, TS, 1, outs[i + 1]);
    }
    MC_LOG(d.text());
    if (!evaluable(d)) throw mc::Discard{};
    for (int eng = engine_lo; eng <= engine_hi; eng++)
        drive(d, {}, eng, SEuler, plan_a);
}

// a diagram with diamonds, several outputs, all types, memories and states; all creation orders of its blocks
static Diagram rich(bool arrays)
{
    Diagram d;
    int e  = d.input(0);
    int x2 = d.sig();
    int x3 = d.sig(TI);
    int a  = arrays ? d.sig(TA, 3) : d.sig();
    Node f;
    f.k   = KFunc;
    f.in  = {e, x2};
    int o1 = d.sig(TB), o2 = d.sig(TI), o3 = arrays ? d.sig(TA, 3) : d.sig();
    f.out = {o1, o2, o3};
    d.nodes.push_back(f);
    d.add(KMem, {o2}, Val(TI, {7}), 0, 0, TI, 1, x3);
    Node g;
    g.k   = KFunc;
    g.in  = {x3, o1, o3};
    int y = d.sig();
    g.out = {y};
    d.nodes.push_back(g);
    d.add(KInteg, {y}, Val(0.25), 0, 0, TS, 1, x2);
    if (arrays)
        d.add(KGain, {o3}, Val(), 3, 0, TA, 3, a);
    else
        d.add(KGain, {o3}, Val(), 3, 0, TS, 1, a);
    return d;
}
static void orders()
{
    Diagram d = rich(choose(2));
    BuildOpt o;
    o.order = mc::permutation(int(d.nodes.size()));
    o.style = choose(3);
    int eng = choose(3);
    MC_LOG(d.text() << " order " << mc::str(o.order) << " style " << o.style);
    drive(d, o, eng, choose(2) ? SRk4 : SEuler, plan_a);
}

// placements of the blocks of a chain in nested submodels, every order
static void placements()
{
    Diagram d;
    int shape    = choose(4);
    d.sub_parent = shape == 0 ? std::vector<int>{-1, 0} : shape == 1 ? std::vector<int>{-1, 0, 0} : shape == 2 ? std::vector<int>{-1, 0, 1} : std::vector<int>{-1, 0, 1, 2};
    int x        = d.input(3);
    const int n  = mc::ex.thorough ? 5 : 4;
    std::vector<int> all{x};
    for (int i = 0; i < n; i++)
    {
        int y = d.add(i == 1 ? KMem : i == 2 ? KSub : KSiso, i == 2 ? std::vector<int>{all[0], all.back()} : std::vector<int>{all.back()}, Val(2), 0, i);
        all.push_back(y);
        d.nodes.back().parent = choose(int(d.sub_parent.size()));
    }
    BuildOpt o;
    o.order = mc::permutation(n);
    o.subs  = choose(2);
    o.style = 1 - o.subs;
    int eng = choose(3);
    MC_LOG(d.text() << " submodel parents " << mc::str(d.sub_parent) << " order " << mc::str(o.order));
    drive(d, o, eng, SEuler, plan_a);
}

// large models: long chains in awkward orders, wide fan-in and fan-out, deep nesting
static void large()
{
    int n     = pick({12, 33, 60, 150, 400});
    int shape = choose(4);
    int ord   = choose(4);
    int nest  = choose(3);
    int eng   = choose(3);
    Diagram d;
    int e = d.input(1);
    if (nest == 1)
        for (int i = 1; i < 12; i++) d.sub_parent.push_back(i - 1); // a tower
    if (nest == 2)
        for (int i = 1; i < 12; i++) d.sub_parent.push_back(0); // side by side
    std::vector<int> outs{e};
    for (int i = 0; i < n; i++)
    {
        if (shape == 0) // chain
            outs.push_back(d.add(KPipe, {outs.back()}));
        else if (shape == 1) // ladder
            outs.push_back(d.add(KSub, {outs.back(), outs[outs.size() >= 2 ? outs.size() - 2 : 0]}));
        else if (shape == 2) // fan-out, then one block with many inputs
            outs.push_back(d.add(KGain, {e}, Val(), i + 1));
        else // chain through memories
            outs.push_back(d.add(i % 3 == 2 ? KMem : KPipe, {outs.back()}, Val(i)));
        d.nodes.back().parent = i % int(d.sub_parent.size());
    }
    if (shape == 2) outs.push_back(d.add(KAdd, std::vector<int>(outs.begin() + 1, outs.begin() + 1 + (n >= 33 ? 33 : 12)), Val(10)));
    int m = int(d.nodes.size());
    BuildOpt o;
    for (int i = 0; i < m; i++)
        o.order.push_back(ord == 0 ? i : ord == 1 ? m - 1 - i : ord == 2 ? (i % 2 ? m - 1 - i / 2 : i / 2) : int((long(i) * 7 + 3) % m));
    if (ord == 3 && m % 7 == 0) throw mc::Discard{};
    MC_LOG("large model: n=" << n << " shape " << shape << " order " << ord << " nesting " << nest);
    drive(d, o, eng, SEuler, {0, {1, 2}, 1e-3, 1, true});
}

// the same signal connected to several inputs of a block, and blocks whose inputs come from one block
static void shared_inputs()
{
    Diagram d;
    int e = d.input(0), u = d.input(1);
    int n = choose(4) + 1;
    Kind k = pick({KAdd, KMul, KSo, KFunc});
    std::vector<int> pool{e, u, d.sig(), d.sig()};
    std::vector<int> in;
    for (int i = 0; i < n; i++) in.push_back(pick(pool));
    if (choose(2))
    {
        d.add(KSiso, {e}, Val(), 0, 1, TS, 1, pool[2]);
        d.add(k, in, Val(k == KMul ? 1 : 0), 0, 2);
        d.add(KSub, {pool[2], u}, Val(), 0, 0, TS, 1, pool[3]);
    }
    else
    {
        d.add(KSub, {pool[2], u}, Val(), 0, 0, TS, 1, pool[3]);
        d.add(k, in, Val(k == KMul ? 1 : 0), 0, 2);
        d.add(KSiso, {e}, Val(), 0, 1, TS, 1, pool[2]);
    }
    int eng = choose(3);
    MC_LOG(d.text());
    drive(d, {}, eng, SEuler, plan_a);
}

// the model is a single block; inputs come from the callback, from the model's own input hook, or from both
struct HookModel : pooya::Submodel
{
    std::function<void(double)> f;
    HookModel() : pooya::Submodel(nullptr, "hook") {}
    void input_cb(double t) override { f(t); }
};
static void model_kinds()
{
    using namespace pooya;
    int mode = choose(4);
    int eng  = choose(3);
    int ord  = choose(2);
    ScalarSignal u("u"), w("w"), y("y"), z("z"), s("s");
    HookModel hm;
    Submodel sm(nullptr, "m");
    Submodel& par = mode >= 1 ? static_cast<Submodel&>(hm) : sm;
    Add add(1.0), lone(1.0, nullptr, "lone");
    Gain g(2.0);
    Integrator in(0.5);
    double nan = std::nan("");
    (void)nan;
    auto cb = [&](Block&, double t)
    {
        if (mode == 0 || mode == 3 || mode == 2) u = 1 + t;
        if (mode == 0 || mode == 3) w = 5 - t * t;
    };
    hm.f = [&](double t)
    {
        if (mode == 1) u = 1 + t;
        if (mode == 1 || mode == 2) w = 5 - t * t;
    };
    Euler st;
    if (mode == 3)
    {
        lone.connect({u, w}, {y});
        auto sim = make_engine(eng, lone, cb, nullptr);
        sim->init(0.25);
        MC_CHECK(mc::close(y, 1 + 1.25 + 5 - 0.0625), "single block model, init: y=" << double(y));
        sim->run(1.5);
        MC_CHECK(mc::close(y, 1 + 2.5 + 5 - 2.25), "single block model, run: y=" << double(y));
        mc::ex.observe(double(y));
        return;
    }
    auto adda = [&] { par.add_block(add, {u, w}, {y}); };
    auto addg = [&] { par.add_block(g, {y}, {z}); };
    if (ord)
    {
        addg();
        par.add_block(in, {z}, {s});
        adda();
    }
    else
    {
        adda();
        par.add_block(in, {z}, {s});
        addg();
    }
    auto sim = make_engine(eng, par, cb, &st);
    sim->init(0.25);
    double es = 0.5;
    auto yv = [](double t) { return 1 + 1 + t + 5 - t * t; };
    MC_CHECK(mc::close(y, yv(0.25)) && mc::close(z, 2 * yv(0.25)) && mc::close(s, es), "inputs by hook mode " << mode << ": init");
    sim->run(0.75);
    es += 0.5 * 2 * yv(0.25);
    MC_CHECK(mc::close(y, yv(0.75)) && mc::close(z, 2 * yv(0.75)) && mc::close(s, es), "inputs by hook mode " << mode << ": first run: s=" << double(s) << " expected " << es);
    sim->run(1.0);
    es += 0.25 * 2 * yv(0.75);
    MC_CHECK(mc::close(y, yv(1)) && mc::close(z, 2 * yv(1)) && mc::close(s, es), "inputs by hook mode " << mode << ": second run");
    mc::ex.observe(double(s));
}

int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"wirings of 2 blocks, all kinds", [] { wirings(2, {KSub, KSiso, KMem, KInteg, KSource, KDeriv, KInit, KPipe, KSo}, 0, 2); }},
                         {"wirings of 3 blocks", [] { wirings(3, {KSub, KSiso, KMem, KInteg}, 0, 2); }},
                         {"creation orders of a mixed model", orders},
                         {"placements in nested submodels", placements},
                         {"large models", large},
                         {"shared inputs", shared_inputs},
                         {"model kinds and input hooks", model_kinds},
                         {"wirings of 4 blocks", [] { int e = choose(3); wirings(4, {KSub, KMem, KInteg, KSiso}, e, e); }, 2}});
}
