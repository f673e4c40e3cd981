// C25: blocks spread over nested submodels in every way.
#include "drive.hpp"
using namespace ref;

// models whose every block feels the start and the end of steps
static Diagram model(int kind)
{
    Diagram d;
    switch (kind)
    {
    case 0: // a chain, given backwards
    {
        int s = d.input(0), a = d.sig(), b = d.sig(), c = d.sig();
        d.add(KMul, {c, s}, Val(2), 0, 0, TS, 1);
        d.add(KGain, {b}, Val(), 3, 0, TS, 1, c);
        d.add(KAdd, {a, s}, Val(1), 0, 0, TS, 1, b);
        d.add(KSource, {}, Val(), 0, 1, TS, 1, a);
        break;
    }
    case 1: // an oscillator
    {
        int x = d.sig(), v = d.sig(), f = d.sig();
        d.add(KInteg, {v}, Val(1), 0, 0, TS, 1, x);
        d.add(KInteg, {f}, Val(0.5), 0, 0, TS, 1, v);
        d.add(KGain, {x}, Val(), -4, 0, TS, 1, f);
        d.add(KMem, {x}, Val(7));
        break;
    }
    case 2: // blocks with a past
    {
        int u = d.input(1), m = d.sig(), a = d.sig();
        d.add(KMem, {a}, Val(-1), 0, 0, TS, 1, m);
        d.add(KAdd, {m, u}, Val(0), 0, 0, TS, 1, a);
        d.add(KDeriv, {a}, Val(3));
        d.add(KInit, {a});
        break;
    }
    case 3: // a restarting state and an array state
    {
        int u = d.input(0), tr = d.sig(TB), z = d.sig(TA, 2), dz = d.sig(TA, 2);
        d.add(KTrig, {u, tr}, Val(0.25));
        d.add(KSource, {}, Val(), 0, 1, TB, 1, tr);
        d.add(KInteg, {dz}, Val(TA, {1, -2}), 0, 0, TA, 2, z);
        d.add(KGain, {z}, Val(), -0.5, 0, TA, 2, dz);
        break;
    }
    default: // a delay
    {
        int u = d.input(3), dl = d.sig(), y = d.sig();
        d.add(KDelay, {u, dl, u}, Val(), 3, 0, TS, 1, y);
        d.add(KConst, {}, Val(0.375), 0, 0, TS, 1, dl);
        d.add(KSub, {y, u});
        d.add(KMem, {y}, Val(5));
    }
    }
    return d;
}
static const int NumModels = 5;
static Plan plan(int k) { return {k ? -1.0 : 0.0, {(k ? -1.0 : 0.0) + 0.5, 1.25, 1.25, 2}, 0.0625, 0.5, k % 2 == 0}; }
static void some_submodels(Diagram& d, int n)
{
    for (int i = 0; i < n; i++) d.sub_parent.push_back(choose(int(d.sub_parent.size())));
    for (auto& b : d.nodes) b.parent = choose(n + 1);
}
// where the blocks are and how the submodels are nested: everything
static void groupings()
{
    int kind  = choose(NumModels);
    Diagram d = model(kind);
    int n     = choose(mc::ex.thorough ? 5 : 4); // submodels
    some_submodels(d, n);
    BuildOpt o;
    o.subs  = choose(2);
    int h   = d.nodes[0].parent + 2 * d.nodes[1].parent + 3 * d.nodes[2].parent + kind;
    int eng = mc::ex.thorough ? choose(3) : h % 3, stp = (h / 2) % 3;
    o.style = h % 2 ? 0 : 1 + h / 2 % 2;
    MC_LOG(d.text());
    drive(d, o, eng, stp, plan(h % 2));
}
// and in which order the blocks are made
static void orders()
{
    int kind  = choose(NumModels);
    Diagram d = model(kind);
    some_submodels(d, mc::ex.thorough ? 2 : 1);
    BuildOpt o;
    o.order = mc::permutation(int(d.nodes.size()));
    o.style = choose(3);
    int h   = o.order[0] + d.nodes[0].parent + o.style;
    o.subs  = h % 2;
    MC_LOG(d.text());
    drive(d, o, mc::ex.thorough ? choose(3) : (h + kind) % 3, h / 2 % 3, plan(h % 2));
}
// linked by hand: submodels among their siblings, each filled before or after it is linked
struct Hand
{
    std::vector<pooya::Signal> sig;
    std::vector<std::unique_ptr<pooya::Block>> own;
};
static void positions()
{
    // the model's list of children: every arrangement of blocks and submodels in it, and of the blocks in the submodels
    int kind  = choose(NumModels);
    Diagram d = model(kind);
    int subs  = 1 + choose(2), nested = subs == 2 ? choose(2) : 0; // the second one inside the first one
    d.sub_parent.push_back(0);
    if (subs == 2) d.sub_parent.push_back(nested ? 1 : 0);
    for (auto& b : d.nodes) b.parent = choose(subs + 1);
    int nb    = int(d.nodes.size());
    int limit = mc::ex.thorough ? nb + subs : 2; // how many items are placed freely
    // the order of linking: of blocks (0..nb-1) and submodels (nb..)
    std::vector<int> items;
    {
        std::vector<int> left;
        for (int i = 0; i < nb + subs; i++) left.push_back(i);
        for (int i = 0; i < nb + subs; i++)
        {
            int k = i < limit ? choose(int(left.size())) : 0;
            items.push_back(left[k]);
            left.erase(left.begin() + k);
        }
    }
    Built b;
    b.d = &d;
    for (std::size_t i = 0; i < d.sigs.size(); i++) b.sig.push_back(make_signal(d.sigs[i].ty, d.sigs[i].size, ""));
    b.subs.push_back(std::make_unique<HookSubmodel>(nullptr, "model"));
    for (int i = 1; i <= subs; i++) b.subs.push_back(std::make_unique<HookSubmodel>(nullptr, i == 1 ? "a" : ""));
    b.blocks.resize(nb);
    for (int i = 0; i < nb; i++) b.blocks[i] = make_block(d.nodes[i], nullptr);
    for (int i : items)
        if (i < nb)
            b.subs[d.nodes[i].parent]->add_block(*b.blocks[i], ibus_of(d.nodes[i], b.sig), obus_of(d.nodes[i], b.sig));
        else
            MC_CHECK(b.subs[i - nb + 1]->set_parent(*b.subs[d.sub_parent[i - nb + 1]]), "a submodel was refused");
    int h   = items[0] + items[1] + kind;
    int eng = h % 3, stp = h / 3 % 3;
    MC_LOG(d.text() << " linked in the order " << mc::str(items));
    RefSim r(d, stp);
    Plan p = plan(h % 2);
    r.init(p.t0);
    auto st  = make_stepper(stp);
    auto sim = make_engine(eng, b.model(), b.inputs(), st.get());
    sim->init(p.t0);
    compare(b, r, engine_name(eng) + std::string(" after init, linked in the order ") + mc::str(items));
    for (double t : p.runs)
    {
        r.run(t, p.hmin, p.hmax);
        sim->run(t, p.hmin, p.hmax);
        compare(b, r, engine_name(eng) + std::string(" after run(") + mc::str(t) + "), linked in the order " + mc::str(items));
    }
}
// deep nesting and many empty submodels
static void deep()
{
    int kind  = choose(NumModels);
    Diagram d = model(kind);
    int depth = mc::ex.thorough ? pick({1, 2, 3, 8, 30}) : pick({1, 4, 10}), empties = mc::ex.thorough ? pick({0, 1, 5, 40}) : pick({0, 1, 17}), where = choose(4);
    for (int i = 0; i < depth; i++) d.sub_parent.push_back(i);
    for (int i = 0; i < empties; i++) d.sub_parent.push_back(where == 0 ? 0 : where == 1 ? depth : where == 2 ? i % (depth + 1) : depth + i);
    for (std::size_t i = 0; i < d.nodes.size(); i++) d.nodes[i].parent = where == 3 ? int(i) * depth / 3 % (depth + 1) : int(i % 2) * depth;
    BuildOpt o;
    o.subs  = choose(2);
    o.style = choose(3);
    drive(d, o, choose(3), kind % 3, plan(where % 2));
}
// what a submodel's own hooks do: inputs from a submodel's hook, steps noted at every depth
struct Noting : pooya::Submodel
{
    std::vector<double> pre, post, in;
    using pooya::Submodel::Submodel;
    void pre_step(double t) override
    {
        pre.push_back(t);
        pooya::Submodel::pre_step(t);
    }
    void post_step(double t) override
    {
        post.push_back(t);
        pooya::Submodel::post_step(t);
    }
};
struct NotingLeaf : pooya::Leaf
{
    std::vector<double> pre, post;
    explicit NotingLeaf(pooya::Submodel* p, const std::string& n) : pooya::Leaf(p, n) {}
    void pre_step(double t) override { pre.push_back(t); }
    void post_step(double t) override { post.push_back(t); }
    void activation_function(double) override {}
};
static void told()
{
    int n = 1 + choose(mc::ex.thorough ? 5 : 4), eng = choose(3), states = choose(2), late = choose(2);
    std::vector<int> par{-1}, leaf_in;
    for (int i = 1; i < n; i++) par.push_back(choose(i));
    std::vector<std::unique_ptr<Noting>> s;
    std::vector<std::unique_ptr<NotingLeaf>> l;
    for (int i = 0; i < n; i++) s.push_back(std::make_unique<Noting>(i == 0 || late ? nullptr : s[par[i]].get(), "s"));
    for (int i = 0; i < n; i++)
    {
        int k = choose(2);
        for (int j = 0; j <= k; j++)
        {
            l.push_back(std::make_unique<NotingLeaf>(s[i].get(), "l"));
            l.back()->connect({}, {});
        }
    }
    pooya::ScalarSignal x("x");
    pooya::Integrator in(1.0);
    pooya::Gain g(-1.0);
    pooya::ScalarSignal dx("dx");
    if (states)
    {
        s[n - 1]->add_block(in, {dx}, {x});
        s[n / 2]->add_block(g, {x}, {dx});
    }
    if (late)
        for (int i = n; i-- > 1;) MC_CHECK(s[i]->set_parent(*s[par[i]]), "a submodel was refused");
    ScriptedStepper st(Script{{AHalf, AKeep, ADouble}, {1}, false});
    auto sim = make_engine(eng, *s[0], nullptr, states ? &st : nullptr);
    sim->init(0);
    sim->run(1, 0.125, 0.5);
    sim->run(1.5, 0.125, 0.5);
    // every accepted step is told once, at its time, to everyone
    auto& want = s[0]->post;
    MC_CHECK(!want.empty() && want.front() == 0 && want.back() == 1.5, "the model was told about the steps " << mc::str(want));
    for (std::size_t i = 1; i < want.size(); i++) MC_CHECK(want[i] > want[i - 1], "the model was told about the steps " << mc::str(want));
    for (auto& b : s) MC_CHECK(b->post == want, "a submodel was told about the steps " << mc::str(b->post) << ", the model about " << mc::str(want) << "; parents " << mc::str(par));
    for (auto& b : l) MC_CHECK(b->post == want, "a block was told about the steps " << mc::str(b->post) << ", the model about " << mc::str(want) << "; parents " << mc::str(par));
    for (auto& b : s) MC_CHECK(b->pre == s[0]->pre, "a submodel was told about the beginning of steps at " << mc::str(b->pre) << ", the model at " << mc::str(s[0]->pre) << "; parents " << mc::str(par));
    for (auto& b : l) MC_CHECK(b->pre == s[0]->pre, "a block was told about the beginning of steps at " << mc::str(b->pre) << ", the model at " << mc::str(s[0]->pre) << "; parents " << mc::str(par));
    for (double t : want) mc::ex.observe(t);
    for (int p : par) mc::ex.observe(uint64_t(p + 1));
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv, {{"groupings", groupings}, {"orders", orders}, {"positions", positions}, {"deep", deep}, {"told about steps", told}});
}
