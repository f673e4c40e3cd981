// C02: the engines agree with each other after every call.
#include "drive.hpp"
using namespace ref;

struct Run
{
    std::unique_ptr<Built> b;
    std::shared_ptr<pooya::StepperBase> st;
    std::unique_ptr<pooya::SimulatorBase> sim;
};
static void agree(const std::vector<Run>& rs, const Diagram& d, const std::string& what)
{
    for (std::size_t i = 0; i < d.sigs.size(); i++)
        for (std::size_t e = 0; e < rs.size(); e++)
        {
            bool a0 = assigned(rs[0].b->sig[i]), a = assigned(rs[e].b->sig[i]);
            if (a0 != a) MC_FAIL(what << ": x" << i << " assigned by one engine only (" << engine_name(int(e)) << "); " << d.text());
            if (!a) continue;
            Val v0 = read(rs[0].b->sig[i]), v = read(rs[e].b->sig[i]);
            if (e == 1)
                for (double x : v.v) mc::ex.observe(x);
            if (!close(v0, v)) MC_FAIL(what << ": x" << i << " = " << v0 << " with the simulator, " << v << " with " << engine_name(int(e)) << "; " << d.text());
        }
}
static void lockstep(const Diagram& d, const BuildOpt& o, int stepper, const Plan& plan)
{
    if (!evaluable(d) || !steps_determined(d, stepper, plan)) throw mc::Discard{};
    std::vector<Run> rs(3);
    for (int e = 0; e < 3; e++)
    {
        rs[e].b   = build(d, o);
        rs[e].st  = make_stepper(stepper);
        rs[e].sim = make_engine(e, rs[e].b->model(), rs[e].b->inputs(), rs[e].st.get());
        if (plan.explicit_init)
            rs[e].sim->init(plan.t0);
        else
            rs[e].sim->run(plan.t0, plan.hmin, plan.hmax);
    }
    std::string w = std::string(stepper_name(stepper)) + ", " + plan_text(plan);
    agree(rs, d, w + ", init");
    for (double t : plan.runs)
    {
        for (auto& r : rs) r.sim->run(t, plan.hmin, plan.hmax);
        agree(rs, d, w + ", run(" + mc::str(t) + ")");
    }
}
// a block of any kind and type, fed by `in`; returns its output
static int add_any(Diagram& d, int k, Ty ty, int size, int in, int in2, int i)
{
    switch (k)
    {
    case KConst:
    case KSource: return d.add(Kind(k), {}, Val(ty, std::vector<double>(size, 1.5)), 0, i, ty, size);
    case KDelay: return d.add(KDelay, {in, d.add(KConst, {}, Val(0.375)), in2}, Val(), 2, 0, ty, size);
    case KTrig:
    {
        int trg = d.sig(TB);
        Node n;
        n.k   = KFunc;
        n.in  = {in};
        n.out = {trg};
        d.nodes.push_back(n);
        return d.add(KTrig, {in, trg}, Val(ty, std::vector<double>(size, 0.5)), 0, 0, ty, size);
    }
    case KSub:
    case KDiv: return d.add(Kind(k), {in, in2}, Val(), 0, 0, ty, size);
    case KAdd:
    case KMul: return d.add(Kind(k), {in, in2, in}, Val(ty, std::vector<double>(size, 2)), 0, 0, ty, size);
    case KSo:
    case KFunc: return d.add(Kind(k), {in, in2}, Val(), 0, i, ty, size);
    case KSources:
    {
        int a = d.sig(ty, size), b = d.sig(TI);
        Node n;
        n.k   = KSources;
        n.out = {a, b};
        n.fn  = i;
        d.nodes.push_back(n);
        return a;
    }
    default: return d.add(Kind(k), {in}, Val(ty, std::vector<double>(size, 0.75 + i)), 1.25, i, ty, size);
    }
}
static const std::vector<Plan> plans{
    {0, {0.5, 1.25, 1.25, 2.5}, 0.125, 0.5, true}, {-1.5, {-1, 0.25}, 0.0625, 0.5, false}, {2, {2.125, 3.5}, 0.125, 1, true}};

static void pairs()
{
    Ty ty    = choose(2) ? TA : TS;
    int size = ty == TA ? 3 : 1;
    Diagram d;
    int e  = d.input(1, ty, size);
    int k1 = choose(KNumKinds), k2 = choose(KNumKinds);
    int fb = choose(2);
    int s  = d.sig(ty, size);
    int a  = add_any(d, k1, ty, size, fb ? s : e, e, 1);
    int b  = add_any(d, k2, ty, size, a, e, 2);
    d.add(KInteg, {b}, Val(ty, std::vector<double>(size, 0.25)), 0, 0, ty, size, s);
    BuildOpt o;
    if (choose(2))
        for (int i = int(d.nodes.size()); i-- > 0;) o.order.push_back(i);
    int st     = choose(3);
    const Plan& p = mc::ex.thorough ? pick(plans) : plans[(k1 + k2 + st + fb) % 3];
    MC_LOG(d.text() << stepper_name(st));
    lockstep(d, o, st, p);
}
// models without states
static void stateless()
{
    Ty ty    = choose(2) ? TA : TS;
    int size = ty == TA ? 2 : 1;
    Diagram d;
    int e = d.input(1, ty, size), x = e;
    int n = 3;
    std::vector<int> kinds{KConst, KSource, KGain, KPipe, KAdd, KSub, KSiso, KFunc, KSources, KMem, KDelay, KDeriv, KInit};
    for (int i = 0; i < n; i++) x = add_any(d, pick(kinds), ty, size, x, e, i);
    BuildOpt o;
    if (choose(2))
        for (int i = int(d.nodes.size()); i-- > 0;) o.order.push_back(i);
    MC_LOG(d.text());
    lockstep(d, o, SEuler, {0.5, {1, 1, 1.25, 3}, 1e-3, 1, choose(2) == 0});
}
// the same model handed from one engine to the next
static void handover()
{
    Diagram d;
    int e = d.input(1);
    int s = d.sig();
    int k = choose(KNumKinds);
    bool state = choose(2);
    int a = add_any(d, k, TS, 1, state ? s : e, e, 1);
    int m = d.add(KMem, {a}, Val(3));
    int b = d.add(KSub, {m, e});
    if (state) d.add(KInteg, {b}, Val(0.25), 0, 0, TS, 1, s);
    if (!evaluable(d)) throw mc::Discard{};
    RefSim r(d, SRk4);
    auto bt = build(d);
    double t = 0;
    std::string hist;
    for (int i = 0; i < 3; i++)
    {
        int eng  = choose(3);
        auto st  = make_stepper(SRk4);
        auto sim = make_engine(eng, bt->model(), bt->inputs(), st.get());
        hist += std::string(engine_name(eng)) + " ";
        sim->init(t);
        r.init(t);
        compare(*bt, r, hist + "init");
        for (int j = 0; j < 2; j++)
        {
            t += 0.5;
            sim->run(t, 1e-3, 0.25);
            r.run(t, 1e-3, 0.25);
            compare(*bt, r, hist + "run");
        }
    }
}
// many steps
static void longrun()
{
    Ty ty    = choose(2) ? TA : TS;
    int size = ty == TA ? 5 : 1;
    Diagram d;
    int e  = d.input(3, ty, size);
    int k1 = choose(KNumKinds);
    int s  = d.sig(ty, size);
    int a  = add_any(d, k1, ty, size, s, e, 2);
    int g  = d.add(KGain, {a}, Val(), -0.125, 0, ty, size);
    d.add(KInteg, {g}, Val(ty, std::vector<double>(size, 0.25)), 0, 0, ty, size, s);
    int st = choose(3);
    Plan p{0, {}, 0.0625, 0.125, true};
    for (int i = 1; i <= 60; i++) p.runs.push_back(i * 0.25 + (i % 3 ? 0.125 : 0));
    MC_LOG(d.text() << stepper_name(st));
    lockstep(d, {}, st, p);
}
static void triples()
{
    Diagram d;
    int e = d.input(1), s = d.sig();
    int x = s;
    for (int i = 0; i < 3; i++) x = add_any(d, choose(KNumKinds), TS, 1, x, i == 1 ? s : e, i);
    d.add(KInteg, {x}, Val(0.25), 0, 0, TS, 1, s);
    BuildOpt o;
    o.order = choose(2) ? std::vector<int>{} : [&] { std::vector<int> v; for (int i = int(d.nodes.size()); i-- > 0;) v.push_back(i); return v; }();
    int st = choose(3);
    lockstep(d, o, st, plans[0]);
}
// inputs that nobody provides at first (the fast simulator refuses such a model): the two other engines agree
static void late_inputs()
{
#ifndef POOYA_DEBUG
    throw mc::Discard{}; // (release builds do not notice that an unassigned signal is read)
#endif
    Diagram d;
    int u = d.input(1), v = d.input(2);
    int k1 = choose(KNumKinds), k2 = choose(KNumKinds);
    bool state = choose(2);
    int s = d.sig();
    int a = add_any(d, k1, TS, 1, u, v, 1);
    int b = add_any(d, k2, TS, 1, a, u, 2);
    int g = d.add(KGain, {b}, Val(), 3);
    d.add(KSub, {g, v});
    if (state) d.add(KInteg, {d.add(KGain, {s}, Val(), -1)}, Val(0.25), 0, 0, TS, 1, s);
    // for each of the calls and each of the inputs: is it there?
    int n    = 4;
    int mu   = choose(1 << n), mv = choose(3) * 5;
    auto call = std::make_shared<int>(0);
    d.input_fn = [=, sg = d.sigs](int i, double t, Val& x)
    {
        if ((i == u ? mu : mv) >> *call & 1) return false;
        x = src_val(sg[i].input, t, TS, 1);
        return true;
    };
    BuildOpt o;
    if (choose(2))
        for (int i = int(d.nodes.size()); i-- > 0;) o.order.push_back(i);
    std::vector<Run> rs(2);
    std::vector<int> threw(2);
    MC_LOG(d.text() << " missing at calls " << mu << " " << mv);
    for (int e = 0; e < 2; e++)
    {
        rs[e].b   = build(d, o);
        rs[e].st  = make_stepper(SEuler);
        rs[e].sim = make_engine(e, rs[e].b->model(), rs[e].b->inputs(), rs[e].st.get());
    }
    for (*call = 0; *call < n; ++*call)
    {
        for (int e = 0; e < 2; e++) threw[e] = mc::throws([&] { rs[e].sim->run(0.5 * *call, 0.125, 1); });
        if (threw[0] != threw[1]) MC_FAIL("call " << *call << ": only " << engine_name(threw[1]) << " throws; " << d.text());
        if (threw[0]) return;
        agree(rs, d, "call " + std::to_string(*call) + " with missing inputs");
    }
}
// a model that gets further blocks between two initialisations
static void growing()
{
    auto vary = [](int n) { return mc::ex.thorough ? choose(n) : mc::spread(n); };
    Ty ty    = vary(2) ? TA : TS;
    int size = ty == TA ? 2 : 1;
    Diagram d;
    d.sub_parent = {-1, 0};
    int e  = d.input(1, ty, size);
    int k1 = choose(KNumKinds), k2 = choose(KNumKinds);
    std::vector<std::size_t> cuts;
    int a = add_any(d, k1, ty, size, e, e, 1);
    cuts.push_back(d.nodes.size());
    int x = d.add(KInteg, {a}, Val(ty, std::vector<double>(size, 0.25)), 0, 0, ty, size);
    cuts.push_back(d.nodes.size());
    int b = add_any(d, k2, ty, size, choose(2) ? x : a, x, 2);
    cuts.push_back(d.nodes.size());
    d.add(choose(2) ? KInteg : KMem, {b}, Val(ty, std::vector<double>(size, -0.5)), 0, 0, ty, size);
    std::size_t cut = pick(cuts);
    bool sub        = vary(2);
    for (std::size_t i = cut; i < d.nodes.size(); i++) d.nodes[i].parent = sub;
    int eng   = choose(3);
    bool same = choose(2);
    int stp   = vary(2);
    double t2 = vary(2) ? 1.5 : 1.0;
    Diagram dp = d;
    dp.nodes.resize(cut);
    if (!evaluable(dp) || !evaluable(d)) throw mc::Discard{};
    RefSim r1(dp, stp), r2(d, stp);
    auto bt = build(dp);
    auto st = make_stepper(stp);
    std::function<void(pooya::Block&, double)> in = bt->inputs(0);
    auto cb  = [&](pooya::Block& m, double t) { in(m, t); };
    auto sim = make_engine(eng, bt->model(), cb, st.get());
    std::string w = std::string(engine_name(eng)) + "/" + stepper_name(stp) + ", " + (same ? "the same simulator" : "another simulator") + " after the model grew from " + std::to_string(cut) + " blocks";
    MC_LOG(w << "; " << d.text());
    sim->init(0);
    r1.init(0);
    compare(*bt, r1, w + ": first init");
    sim->run(1, 0.125, 0.5);
    r1.run(1, 0.125, 0.5);
    compare(*bt, r1, w + ": first run");
    bt->d = &d;
    for (std::size_t i = cut; i < d.nodes.size(); i++)
    {
        auto& n = d.nodes[i];
        bt->blocks.push_back(make_block(n, bt->subs[n.parent].get()));
        bt->blocks[i]->connect(ibus_of(n, bt->sig), obus_of(n, bt->sig));
    }
    in = bt->inputs(0);
    std::copy(r1.st.begin(), r1.st.end(), r2.st.begin());
    if (!same) sim = make_engine(choose(3), bt->model(), cb, st.get());
    sim->init(t2);
    r2.init(t2);
    compare(*bt, r2, w + ": second init at " + mc::str(t2));
    sim->run(t2 + 0.75, 0.125, 0.5);
    r2.run(t2 + 0.75, 0.125, 0.5);
    compare(*bt, r2, w + ": second run");
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"all pairs of blocks with a state", pairs},
                         {"all triples of blocks without a state", stateless},
                         {"one model, engine after engine", handover},
                         {"60 steps", longrun},
                         {"inputs that come late", late_inputs},
                         {"models that grow", growing},
                         {"all triples of blocks with a state", triples, 2}});
}
