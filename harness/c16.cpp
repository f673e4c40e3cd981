// C16: which connections and parents a block accepts.
#include "drive.hpp"
using namespace ref;
#if defined(NDEBUG)
static const bool debug_build = false;
#else
static const bool debug_build = true;
#endif
enum
{
    TBus = 4,
    NTypes
};
static const char* tname(int t)
{
    static const char* n[] = {"scalar", "int", "bool", "array", "bus"};
    return n[t];
}
static pooya::Signal sig_of(int t, const std::string& n)
{
    if (t == TBus)
    {
        pooya::ScalarSignal s("member");
        return pooya::Bus({s}, n);
    }
    return make_signal(Ty(t), t == TA ? 3 : 1, n);
}
// a kind of block: what it takes
struct Spec
{
    std::string name;
    Kind k;
    Ty ty;
    int nin; // -1: one or more of ty, -2: any number of anything, -3: none, or unspecified otherwise
    bool any_out{false};
    int lim_in{-1}, lim_out{-1}; // explicit limits (Function, Sources, SOFunction, Submodel)
};
static std::vector<Spec> specs()
{
    std::vector<Spec> r;
    auto add = [&](Kind k, std::initializer_list<Ty> tys, int nin)
    {
        for (Ty t : tys) r.push_back({std::string(kind_name(k)) + "/" + tname(t), k, t, nin});
    };
    add(KConst, {TS, TI, TB, TA}, 0);
    add(KSource, {TS, TI, TB, TA}, -3);
    add(KGain, {TS, TI, TA}, 1);
    add(KPipe, {TS, TI, TB, TA}, 1);
    add(KMem, {TS, TI, TB, TA}, 1);
    add(KDeriv, {TS, TA}, 1);
    add(KInit, {TS, TA}, 1);
    add(KSiso, {TS, TA}, 1);
    add(KInteg, {TS, TA}, 1);
    add(KAdd, {TS, TI, TA}, -1);
    add(KMul, {TS, TI, TA}, -1);
    add(KSub, {TS, TI, TA}, 2);
    add(KDiv, {TS, TI, TA}, 2);
    add(KSo, {TS, TA}, -2);
    Spec f{"Function", KFunc, TS, -2, true};
    r.push_back(f);
    f.name    = "Function(2,1)";
    f.lim_in  = 2;
    f.lim_out = 1;
    r.push_back(f);
    f.name    = "Function(0,0)";
    f.lim_in  = 0;
    f.lim_out = 0;
    r.push_back(f);
    Spec s{"Sources", KSources, TS, 0, true};
    r.push_back(s);
    s.name    = "Sources(2)";
    s.lim_out = 2;
    r.push_back(s);
    Spec o{"SOFunction(1)", KSo, TS, -2};
    o.lim_in = 1;
    r.push_back(o);
    Spec m{"Submodel", KNumKinds, TS, -2, true};
    r.push_back(m);
    m.name    = "Submodel(1,2)";
    m.lim_in  = 1;
    m.lim_out = 2;
    r.push_back(m);
    return r;
}
static std::unique_ptr<pooya::Block> make(const Spec& s, pooya::Submodel* parent)
{
    using namespace pooya;
    uint16_t i = s.lim_in < 0 ? Block::NoIOLimit : uint16_t(s.lim_in), o = s.lim_out < 0 ? Block::NoIOLimit : uint16_t(s.lim_out);
    auto act = [](double, const Bus&, const Bus&) {};
    if (s.k == KNumKinds) return s.lim_in < 0 ? std::make_unique<Submodel>(parent, "b") : std::make_unique<Submodel>(parent, "b", i, o);
    if (s.k == KFunc) return s.lim_in < 0 ? std::make_unique<Function>(act, parent, "b") : std::make_unique<Function>(act, parent, "b", i, o);
    if (s.k == KSources && s.lim_out >= 0) return std::make_unique<Sources>([](const Bus&, double) {}, parent, "b", o);
    if (s.k == KSo && s.lim_in >= 0) return std::make_unique<SOFunction>([](double, const Bus&) { return 0.0; }, parent, "b", i);
    Node n;
    n.k    = s.k;
    n.ty   = s.ty;
    n.size = s.ty == TA ? 3 : 1;
    n.p    = zero(s.ty, n.size);
    n.d    = 2;
    n.name = "b";
    return make_block(n, parent);
}
// accepted, rejected or not specified (-1)
static int accepts(const Spec& s, const std::vector<int>& in, const std::vector<int>& out)
{
    bool ok = true;
    int n   = int(in.size());
    if (s.lim_in >= 0) ok = ok && n == s.lim_in;
    if (s.lim_out >= 0) ok = ok && int(out.size()) == s.lim_out;
    if (s.nin == -3 && n > 0)
    {
        return -1;
    }
    if (s.nin == -1)
    {
        ok = ok && n >= 1;
        for (int t : in) ok = ok && t == s.ty;
    }
    if (s.nin >= 0)
    {
        ok = ok && n == s.nin;
        for (int t : in) ok = ok && t == s.ty;
    }
    if (!s.any_out) ok = ok && out.size() == 1 && out[0] == s.ty;
    return ok;
}
static std::string types(const std::vector<int>& v)
{
    std::string s;
    for (int t : v) s += std::string(s.empty() ? "" : ",") + tname(t);
    return "(" + s + ")";
}
static std::vector<int> pick_types(int max)
{
    std::vector<int> v;
    int n = choose(max + 1);
    for (int i = 0; i < n; i++) v.push_back(choose(NTypes));
    return v;
}
static void connections()
{
    static const auto all = specs();
    const Spec& s         = all[choose(int(all.size()))];
    auto in               = pick_types(mc::ex.thorough ? 4 : 3);
    auto out              = pick_types(mc::ex.thorough ? 3 : 2);
    int way               = choose(3);
    if (!mc::ex.thorough && in.size() > 2 && out.size() > 1) throw mc::Discard{};
    int want = accepts(s, in, out);
    if (want < 0) throw mc::Discard{};
    if (!debug_build && !want) throw mc::Discard{};
    using namespace pooya;
    Submodel m(nullptr, "m");
    auto b = make(s, way == 1 ? nullptr : &m);
    std::vector<Labelled> li, lo;
    std::vector<Signal> si, so;
    for (std::size_t i = 0; i < in.size(); i++)
    {
        si.push_back(sig_of(in[i], "i" + std::to_string(i)));
        li.emplace_back("p" + std::to_string(i), si.back());
    }
    for (std::size_t i = 0; i < out.size(); i++)
    {
        so.push_back(sig_of(out[i], "o" + std::to_string(i)));
        lo.emplace_back("q" + std::to_string(i), so.back());
    }
    Bus ib = way == 2 ? make_lbus(li) : make_bus(si), ob = way == 2 ? make_lbus(lo) : make_bus(so);
    MC_LOG(s.name << types(in) << " -> " << types(out) << (want ? " valid" : " not valid"));
    mc::ex.observe(std::uint64_t(want));
    bool threw = mc::throws(
        [&]
        {
            if (way == 1)
                m.add_block(*b, ib, ob);
            else
                b->connect(ib, ob);
        });
    MC_CHECK(threw == !want, s.name << " with inputs " << types(in) << " and outputs " << types(out) << (threw ? " is rejected" : " is accepted"));
    if (threw)
    {
        // refused for the number of its signals: nothing happened, the right connection is still possible
        int n = int(in.size());
        bool counts = (s.lim_in >= 0 && n != s.lim_in) || (s.lim_out >= 0 && int(out.size()) != s.lim_out) || (s.nin >= 0 && n != s.nin) || (!s.any_out && out.size() != 1);
        if (!counts) return;
        MC_CHECK(!b->connected(), s.name << " says it is connected after its connection was refused");
        std::vector<Signal> ri, ro;
        for (int i = s.lim_in >= 0 ? s.lim_in : s.nin >= 0 ? s.nin : s.nin == -3 ? 0 : 1; i > 0; i--) ri.push_back(sig_of(s.ty, "r"));
        for (int i = s.lim_out >= 0 ? s.lim_out : 1; i > 0; i--) ro.push_back(sig_of(s.ty, "t"));
        Bus rib = make_bus(ri), rob = make_bus(ro);
        threw = mc::throws([&] { if (way == 1) m.add_block(*b, rib, rob); else b->connect(rib, rob); });
        MC_CHECK(!threw && b->connected(), s.name << ": a valid connection is refused after one with inputs " << types(in) << " and outputs " << types(out) << " was");
        MC_CHECK(&b->ibus().impl() == &rib.impl() && &b->obus().impl() == &rob.impl(), s.name << " has buses of a refused connection");
        for (auto& l : b->linked_signals())
        {
            bool mine = false;
            for (auto* v : {&ri, &ro})
                for (auto& x : *v) mine = mine || &x.impl() == l.first.get();
            MC_CHECK(mine, s.name << " is linked to " << l.first->name().str() << " of a refused connection");
        }
        return;
    }
    MC_CHECK(b->connected(), s.name << " says it is not connected");
    MC_CHECK(&b->ibus().impl() == &ib.impl() && &b->obus().impl() == &ob.impl(), s.name << " has other buses");
    if (debug_build)
    {
        // once is enough
        MC_CHECK(mc::throws([&] { b->connect(ib, ob); }), s.name << " can be connected twice");
        MC_CHECK(mc::throws([&] { b->connect(); }), s.name << " can be connected twice, to nothing");
        MC_CHECK(&b->ibus().impl() == &ib.impl() && &b->obus().impl() == &ob.impl() && b->connected(), s.name << ": a rejected connection changed the first one");
    }
}
// blocks that find their inputs by label
static void labelled()
{
    using namespace pooya;
    int kind = choose(4);
    bool arr = kind % 2, delay = kind < 2;
    Ty ty    = arr ? TA : TS;
    std::vector<std::string> labels = delay ? std::vector<std::string>{"in", "delay", "initial"} : std::vector<std::string>{"in", "trigger"};
    std::vector<int> right          = delay ? std::vector<int>{ty, TS, ty} : std::vector<int>{ty, TB};
    std::vector<int> t;
    for (std::size_t i = 0; i < labels.size(); i++) t.push_back(choose(NTypes));
    int o   = choose(NTypes);
    int bad = choose(int(labels.size()) + 3); // a label that is missing; one port too many or too few
    auto perm = delay ? mc::permutation(3) : std::vector<int>{0, 1};
    bool want = t == right && o == ty && bad == 0;
    // the order does not matter to a delay (one order is enough for what is rejected anyway)
    if (!want && perm[0] > perm[1]) throw mc::Discard{};
    if (!debug_build && !want) throw mc::Discard{};
    std::vector<Labelled> in;
    std::vector<Signal> sig;
    for (std::size_t i = 0; i < labels.size(); i++) sig.push_back(sig_of(t[i], "s" + std::to_string(i)));
    for (int i : perm)
    {
        std::string l = labels[i];
        if (bad == i + 1) l = i == 0 && !delay ? "in" : l + "_";
        in.emplace_back(l, sig[i]);
    }
    if (!delay && bad == 1) throw mc::Discard{}; // whether the first input needs its label is not specified
    if (bad == int(labels.size()) + 1) in.emplace_back("more", sig[0]);
    if (bad == int(labels.size()) + 2) in.pop_back();
    Submodel m(nullptr, "m");
    Node n;
    n.k    = delay ? KDelay : KTrig;
    n.ty   = ty;
    n.size = arr ? 3 : 1;
    n.p    = zero(ty, n.size);
    n.d    = 5;
    auto b = make_block(n, &m);
    Signal out = sig_of(o, "out");
    std::string txt;
    for (auto& p : in) txt += p.first + " ";
    MC_LOG(kind_name(n.k) << (arr ? "A " : " ") << types(t) << " labels " << txt << " -> " << tname(o));
    mc::ex.observe(std::uint64_t(want));
    bool threw = mc::throws([&] { b->connect(make_lbus(in), {out}); });
    MC_CHECK(threw == !want, kind_name(n.k) << (arr ? "A" : "") << " with inputs " << txt << types(t) << " and output " << tname(o) << (threw ? " is rejected" : " is accepted"));
    if (!threw && debug_build) MC_CHECK(mc::throws([&] { b->connect(make_lbus(in), {out}); }), "a second connection is accepted");
}
// a rejected second connection leaves the first one working
static void reconnect()
{
    int kind = choose(int(KNumKinds));
    int arr  = choose(2);
    int eng  = choose(3);
    int how  = choose(5);
    if (kind == KFunc || kind == KSources || kind == KInteg || kind == KTrig) arr = 0;
    Ty ty    = arr ? TA : TS;
    int size = arr ? 3 : 1;
    Diagram d;
    int x = d.input(0, ty, size), y = d.input(1, ty, size), dl = d.input(4), tr = d.input(1, TB);
    std::vector<int> in;
    switch (kind)
    {
    case KConst:
    case KSource:
    case KSources: break;
    case KAdd:
    case KMul:
    case KSub:
    case KDiv:
    case KSo:
    case KFunc: in = {x, y}; break;
    case KDelay: in = {x, dl, y}; break;
    case KTrig: in = {x, tr}; break;
    default: in = {x};
    }
    Val p = zero(ty, size);
    for (auto& e : p.v) e = 1.5;
    d.add(Kind(kind), in, p, 2, 0, ty, size);
    auto b = build(d);
    // other signals of the right types, the same ones, none, exchanged ones
    std::vector<pooya::Signal> osig;
    for (auto& s : d.sigs) osig.push_back(make_signal(s.ty, s.size, "other"));
    auto again = [&]
    {
        auto& n = d.nodes[0];
        auto& bl = *b->blocks[0];
        switch (how)
        {
        case 0: bl.connect(ibus_of(n, b->sig), obus_of(n, b->sig)); break;
        case 1: bl.connect(ibus_of(n, osig), obus_of(n, osig)); break;
        case 2: bl.connect({}, {}); break;
        case 3: b->model().add_block(bl, ibus_of(n, osig), obus_of(n, osig)); break;
        default: bl.connect(ibus_of(n, b->sig), obus_of(n, osig));
        }
    };
    MC_LOG(d.text() << " second connection " << how);
    if (debug_build) MC_CHECK(mc::throws(again), kind_name(kind) << ": a second connection (" << how << ") is accepted");
    RefSim r(d, SEuler);
    auto st  = make_stepper(SEuler);
    auto sim = make_engine(eng, b->model(), b->inputs(), st.get());
    r.init(0);
    sim->init(0);
    compare(*b, r, "after a rejected second connection, init");
    for (double t : {0.5, 0.75})
    {
        if (debug_build) MC_CHECK(mc::throws(again), kind_name(kind) << ": a second connection during the simulation is accepted");
        r.run(t);
        sim->run(t);
        compare(*b, r, "after a rejected second connection");
    }
    if (debug_build)
        for (auto& s : osig) MC_CHECK(!assigned(s), "a signal of the rejected connection was assigned");
}

// parents: sequences of adoptions
struct Probe : pooya::Leaf
{
    int posts{0}, acts{0};
    pooya::ScalarSignal out{"out"};
    explicit Probe(pooya::Submodel* p = nullptr) : Leaf(p, "probe") {}
    void activation_function(double) override
    {
        acts++;
        out = 1;
    }
    void post_step(double) override { posts++; }
};
static void adoption()
{
    using namespace pooya;
    int depth   = mc::ex.thorough ? 5 : 4;
    bool with   = choose(2); // made with a parent
    int what    = choose(2); // a leaf or a submodel with a leaf inside
    Submodel a(nullptr, "a"), b(nullptr, "b");
    Submodel inner(with && what ? &a : nullptr, "inner");
    Probe p(what ? &inner : with ? &a : nullptr);
    Probe twin(&a);
    Probe twinb(&b);
    twin.connect({}, {twin.out});
    twinb.connect({}, {twinb.out});
    if (what) p.connect({}, {p.out});
    Block& bl       = what ? static_cast<Block&>(inner) : p;
    Submodel* owner = with ? &a : nullptr;
    bool connected  = false;
    std::string txt = std::string(what ? "submodel" : "leaf") + (with ? " made in a" : "");
    for (int i = 0; i < depth; i++)
    {
        int op       = choose(6);
        Submodel& s  = op % 2 ? b : a;
        bool ok      = !owner || owner == &s;
        bool ret     = false;
        const char* w = op % 2 ? "b" : "a";
        if (op < 2)
        {
            txt += std::string(" set_parent(") + w + ")";
            ret = bl.set_parent(s);
            if (ok) owner = &s;
        }
        else if (op < 4)
        {
            txt += std::string(" ") + w + ".link_block";
            // linking does not adopt
            ok  = owner == &s;
            ret = s.link_block(bl);
        }
        else
        {
            txt += std::string(" ") + w + ".add_block";
            bool threw = false;
            try
            {
                if (what)
                    ret = s.add_block(bl);
                else
                    ret = s.add_block(bl, {}, {p.out});
            }
            catch (const std::exception&)
            {
                threw = true;
            }
            if (ok) owner = &s;
            // an own block that is connected already is not connected again
            if (ok && debug_build) MC_CHECK(threw == connected, txt << (threw ? " throws" : " connects a second time"));
            if (ok && !connected) connected = true;
            if (threw) ret = ok;
        }
        MC_CHECK(ret == ok, txt << " returns " << ret);
        MC_CHECK(bl.parent() == owner, txt << ": wrong parent");
        int na = 0, nb = 0;
        a.visit([&](Block& x, uint32_t) { return na += &x == &p, true; }, 0);
        b.visit([&](Block& x, uint32_t) { return nb += &x == &p, true; }, 0);
        MC_CHECK(na == (owner == &a) && nb == (owner == &b), txt << ": found " << na << " times in a, " << nb << " times in b");
        mc::ex.observe(std::uint64_t(na * 2 + nb));
    }
    if (!what && !connected) p.connect({}, {p.out});
    MC_LOG(txt);
    int eng = choose(3);
    for (Submodel* m : {&a, &b})
    {
        Probe& t = m == &a ? twin : twinb;
        p.posts = p.acts = t.posts = t.acts = 0;
        auto sim                            = make_engine(eng, *m, nullptr, nullptr);
        sim->init(0);
        sim->run(1);
        bool in = owner == m;
        MC_CHECK(t.acts == 2 || t.acts > 0, "harness: the twin does not run");
        MC_CHECK(p.acts == (in ? t.acts : 0), txt << ": evaluated " << p.acts << " times while a block linked once is evaluated " << t.acts << " times");
        MC_CHECK(p.posts == (in ? t.posts : 0), txt << ": told " << p.posts << " times about accepted steps, a block linked once " << t.posts << " times");
    }
}
// parents inside parents: an adopted block stays where it is, and nothing above or below takes it
static void ancestors()
{
    using namespace pooya;
    int levels = choose(mc::ex.thorough ? 4 : 3) + 2;
    int home   = choose(levels); // where the block is
    int what   = choose(2);      // a leaf or a submodel
    int how    = choose(3);      // made there, or adopted by set_parent or add_block
    std::vector<std::unique_ptr<Submodel>> s;
    for (int i = 0; i < levels; i++) s.push_back(std::make_unique<Submodel>(i ? s.back().get() : nullptr, "s" + std::to_string(i)));
    Submodel other(choose(2) ? s[0].get() : nullptr, "other");
    Submodel inner(what && !how ? s[home].get() : nullptr, "inner");
    Probe p(what ? &inner : how ? nullptr : s[home].get());
    Probe twin(s[0].get());
    twin.connect({}, {twin.out});
    Block& bl = what ? static_cast<Block&>(inner) : p;
    if (how == 1) MC_CHECK(bl.set_parent(*s[home]), "a free block is not adopted");
    if (how == 2) MC_CHECK(what ? s[home]->add_block(bl) : s[home]->add_block(bl, {}, {p.out}), "a free block is not added");
    if (what || how != 2) p.connect({}, {p.out});
    std::string txt = std::string(what ? "submodel" : "leaf") + " in level " + std::to_string(home) + " of " + std::to_string(levels) + ":";
    for (int i = 0; i < 2; i++)
    {
        int k       = choose(levels + 1);
        Submodel& m = k < levels ? *s[k] : other;
        int op      = choose(2);
        txt += (op ? " link_block " : " set_parent ") + std::to_string(k);
        bool ret = op ? m.link_block(bl) : bl.set_parent(m);
        MC_CHECK(ret == (k == home), txt << " returns " << ret);
        MC_CHECK(bl.parent() == s[home].get(), txt << ": another parent");
        MC_CHECK(bl.full_name().str().find("s" + std::to_string(home)) != std::string::npos && bl.full_name().str().find("other") == std::string::npos, txt << ": it is called " << bl.full_name().str());
    }
    for (int k = 0; k <= levels; k++)
    {
        Submodel& m = k < levels ? *s[k] : other;
        int found   = 0;
        m.visit([&](Block& x, uint32_t) { return found += &x == &p, true; }, 0);
        MC_CHECK(found == (k <= home), txt << ": found " << found << " times from level " << k);
    }
    MC_LOG(txt);
    auto sim = make_engine(choose(3), *s[0], nullptr, nullptr);
    sim->init(0);
    sim->run(1);
    sim->run(2);
    MC_CHECK(p.posts == twin.posts && p.acts == twin.acts && p.acts > 0, txt << ": " << p.posts << " steps and " << p.acts << " evaluations counted, a block made in the model counts " << twin.posts << " and " << twin.acts);
    mc::ex.observe(std::uint64_t(home));
    mc::take_output();
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv, {{"connections", connections}, {"labelled ports", labelled}, {"second connections", reconnect}, {"parents", adoption}, {"ancestors", ancestors}});
}
