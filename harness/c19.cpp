// C19: the diagnostic trace is balanced.  It is read from the text of the exceptions only.
#include <thread>
#include "drive.hpp"
using namespace ref;
using namespace pooya;
#if defined(NDEBUG)
#error debug builds only
#endif

// the text of an exception raised here and now
static std::string probe()
{
    try
    {
        ScalarSignal s("probe");
        (void)s->get_value();
    }
    catch (const std::exception& e)
    {
        return e.what();
    }
    MC_FAIL("harness: no exception");
}
static bool in_progress_only(const std::string& text, const std::vector<std::string>& names, const std::vector<std::string>& allowed)
{
    for (auto& n : names)
        if (std::find(allowed.begin(), allowed.end(), n) == allowed.end() && text.find(n) != std::string::npos) return false;
    return true;
}
struct Boom
{
};
static int throw_kind; // what user code throws
[[noreturn]] static void boom()
{
    if (throw_kind == 0) throw std::runtime_error("user");
    if (throw_kind == 1) throw Boom{};
    ScalarSignal s("user");
    (void)s->get_value();
    throw Boom{};
}
struct Hook : Leaf
{
    int at;
    int n{0};
    ScalarSignal out{"hook_out"};
    Hook(Submodel* p, int a) : Leaf(p, "hook"), at(a) {}
    void hit(int a)
    {
        if (at % 4 == a && ++n > at / 4) boom();
    }
    void pre_step(double) override { hit(0); }
    void activation_function(double) override
    {
        hit(1);
        out = 1;
    }
    void post_step(double) override { hit(2); }
};
struct HookModel : Submodel
{
    int n{0}, when;
    explicit HookModel(int w) : Submodel(nullptr, "hookmodel"), when(w) {}
    void input_cb(double) override
    {
        if (n++ == when) boom();
    }
};
struct BadStepper : StepperBase
{
    int how;
    explicit BadStepper(int h) : how(h) {}
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        if (how == 0) boom();
        cb(t0, v0);
        if (how == 1) boom();
        v1    = v0;
        new_h = t1 - t0;
    }
};
// a state, nested: model / mid / leaf blocks
struct Plant
{
    Submodel model{nullptr, "model"}, mid{&model, "mid"}, low{&mid, "low"};
    ScalarSignal x{"x"}, dx{"dx"}, u{"u"}, m{"m"};
    Integrator i{1, &low, "integ"};
    Memory mem{0, &mid, "memo"};
    std::unique_ptr<Function> f;
    std::shared_ptr<StepperBase> st{std::make_shared<Rk4>()};
    explicit Plant(int fail_at = -1)
    {
        auto n = std::make_shared<int>(0);
        i.connect({dx}, {x});
        mem.connect({x}, {m});
        f = std::make_unique<Function>(
            [n, fail_at](double t, const Bus& in, const Bus& out)
            {
                if ((*n)++ == fail_at) boom();
                ScalarSignal(out.at(0)) = t - ScalarSignal(in.at(0)) * ScalarSignal(in.at("u"));
            },
            &low, "func");
        f->connect({{"x", Signal(x)}, {"m", Signal(m)}, {"u", Signal(u)}}, {{"dx", Signal(dx)}});
    }
    SimulatorBase::InputCallback cb(int fail_at = -1)
    {
        auto n = std::make_shared<int>(0);
        return [this, n, fail_at](Block&, double t)
        {
            if ((*n)++ == fail_at) boom();
            u = t + 1;
        };
    }
};
using Op = std::pair<std::string, std::function<void()>>;
static std::vector<Op> operations()
{
    std::vector<Op> r;
    auto op = [&](const std::string& n, std::function<void()> f) { r.emplace_back(n, std::move(f)); };
    // signals
    op("read unassigned", [] { ArraySignal(3, "a")->get_value(); });
    op("read unassigned int", [] { IntSignal("a")->get_value(); });
    op("assign twice", [] {ScalarSignal s; s = 1; s = 2; });
    op("assign twice bool", [] {BoolSignal s; s = true; s = false; });
    op("wrong length", [] {ArraySignal s(3); s = Array(Array::Zero(2)); });
    op("use", [] {ScalarSignal s; s = 1; s->clear(); s = 2; (void)s->get_value(); });
    op("wrong type", [] {ScalarSignal s; IntSignal i(s); });
    op("wrong reset", [] {ScalarSignal s; IntSignal i; i.reset(s); });
    // buses
    op("missing label", [] { Bus().at("x"); });
    op("missing position", [] { Bus().at(3); });
    op("missing position []", [] { Bus()[3]; });
    op("missing path", [] {ScalarSignal s; Bus b({{"s", Signal(s)}}), c({{"b", Signal(b)}}); c.at("b.q"); });
    op("path through a value", [] {ScalarSignal s; Bus b({{"s", Signal(s)}}); b.at("s.q"); });
    op("path through a value, try", [] {ScalarSignal s; Bus b({{"s", Signal(s)}}), c({{"b", Signal(b)}}); c->try_at("b.s.q"); c->try_at("q"); c->try_at("b.s"); });
    op("lookups", [] {ScalarSignal s; Bus b({{"s", Signal(s)}}), c({{"b", Signal(b)}}); c.at("b.s"); c[0]; c["b"]; c.at(0); });
    // blocks
    op("no inputs", [] { Gain(1).connect({}, {}); });
    op("wrong input", [] {IntSignal i; ScalarSignal o; Gain(1).connect({i}, {o}); });
    op("wrong output", [] {IntSignal i; ScalarSignal o; Gain(1).connect({o}, {i}); });
    op("twice", [] {ScalarSignal i, o; Gain g(1); g.connect({i}, {o}); g.connect({i}, {o}); });
    op("add wrong", [] {IntSignal i; ScalarSignal o; Add(0.0).connect({o, i}, {o}); });
    op("subtract wrong", [] {IntSignal i; ScalarSignal o; Subtract().connect({o, i}, {o}); });
    op("multiply nothing", [] {ScalarSignal o; Multiply(1.0).connect({}, {o}); });
    op("divide wrong", [] {ScalarSignal o; Divide().connect({o}, {o}); });
    op("delay without label", [] {ScalarSignal a, b, c, o; Delay(1).connect({a, b, c}, {o}); });
    op("trigger of the wrong type", [] {ScalarSignal a, b, o; TriggeredIntegrator(0.0).connect({{"in", Signal(a)}, {"trigger", Signal(b)}}, {o}); });
    op("integrator length", [] {ArraySignal a(2), o(3); IntegratorA(Array(Array::Zero(3))).connect({a}, {o}); });
    op("memory of another type", [] {BoolSignal i; ScalarSignal o; Memory(1).connect({i}, {o}); });
    op("submodel limits", [] {ScalarSignal a; Submodel(nullptr, "s", 0, 0).connect({a}, {}); });
    op("foreign parent", [] {Submodel a(nullptr, "a"), b(nullptr, "b"); Gain g(1, &a); b.add_block(g); b.link_block(g); g.set_parent(b); });
    op("port", [] {ScalarSignal i, o; Gain g(1); g.connect({i}, {o}); g.input(4); });
    op("bus memory", [] {Submodel m; ScalarSignal i, o; Bus bi({{"a", Signal(i)}}), bo({{"a", Signal(o)}}); BusMemory b(m, {{"q", 1.0}}); b.connect(bi, bo); });
    op("bus memory without output", [] {Submodel m; ScalarSignal i, o; Bus bi({{"a", Signal(i)}}), bo({{"b", Signal(o)}}); BusMemory b(m); b.connect(bi, bo); });
    op("bus memory of another type", [] {Submodel m; ScalarSignal i, o; Bus bi({{"a", Signal(i)}}), bo({{"a", Signal(o)}}); BusMemory b(m, {{"a", 1}}); b.connect(bi, bo); });
    op("bus pipe without output", [] {Submodel m; ScalarSignal i, o; Bus in({i}), n({{"z", Signal(in)}}), bo({{"b", Signal(o)}}); BusPipe b(m); b.connect(n, bo); });
    op("visit", [] {Plant p; int n = 0; p.model.visit([&](Block&, uint32_t) { return ++n < 4; }, 0); p.model.const_visit([&](const Block&, uint32_t) { return ++n < 6; }, 0, 1); });
    op("visit thrown out of", [] {Plant p; int n = 0; p.model.visit([&](Block&, uint32_t) { if (++n == 4) boom(); return true; }, 0); });
    op("const_visit thrown out of", [] {Plant p; int n = 0; p.model.const_visit([&](const Block&, uint32_t) { if (++n == 5) boom(); return true; }, 0); });
    // history
    op("history", [] {ScalarSignal s, o; History h(2); h.track(s); h.update(0, 1); h.update(5, 2); h.shrink_to_fit(); (void)h.nrows(); });
    op("history untracked", [] {ScalarSignal s, o; History h(2); h.track(s); h.update(0, 1); h[o]; });
    op("history tracked late", [] {ScalarSignal s, o; History h(2); h.track(s); h.update(0, 1); h.track(o); });
    op("history csv", [] {ScalarSignal s("s"); History h; h.track(s); h.update(0, 1); h.export_csv("/nonexistent-directory/x.csv"); });
    // simulations
    for (int e = 0; e < 3; e++)
    {
        std::string en = engine_name(e);
        op(en + " simulation", [e] {Plant p; auto s = make_engine(e, p.model, p.cb(), p.st.get()); s->init(0); s->run(1); s->run(1); });
        op(en + " back", [e] {Plant p; auto s = make_engine(e, p.model, p.cb(), p.st.get()); s->run(0); s->run(1); s->run(0.5); });
        op(en + " no stepper", [e] {Plant p; auto s = make_engine(e, p.model, p.cb(), nullptr); s->run(0); s->run(1); });
        op(en + " limits", [e] {Plant p; auto s = make_engine(e, p.model, p.cb(), p.st.get()); s->run(0); s->run(1, 0, 1); });
        op(en + " limits exchanged", [e] {Plant p; auto s = make_engine(e, p.model, p.cb(), p.st.get()); s->run(0); s->run(1, 2, 1); });
        op(en + " no input", [e] {Plant p; auto s = make_engine(e, p.model, nullptr, p.st.get()); s->init(0); s->run(1); });
        op(en + " input assigned twice", [e] {Plant p; auto s = make_engine(e, p.model, [&](Block&, double) { p.u = 1; p.u = 2; }, p.st.get()); s->init(0); });
        op(en + " loop", [e]
           {
            Submodel m(nullptr, "loopy");
            ScalarSignal a("a"), b("b");
            Gain g(2, &m, "g"), h(1, &m, "h");
            g.connect({a}, {b});
            h.connect({b}, {a});
            auto s = make_engine(e, m, nullptr, nullptr);
            s->init(0);
            s->run(1); });
        op(en + " loop before a memory", [e]
           {
            Submodel m(nullptr, "loopy");
            ScalarSignal a("a"), b("b"), c("c");
            Gain g(2, &m, "g"), h(1, &m, "h");
            Memory me(1, &m, "me");
            g.connect({a}, {b});
            h.connect({b}, {a});
            me.connect({a}, {c});
            auto s = make_engine(e, m, nullptr, nullptr);
            s->init(0); });
        for (int k : {0, 1, 2, 4, 7, 11})
        {
            op(en + " function throws at " + std::to_string(k), [e, k] {Plant p(k); auto s = make_engine(e, p.model, p.cb(), p.st.get()); s->init(0); s->run(1); s->run(3); });
            op(en + " input callback throws at " + std::to_string(k), [e, k] {Plant p; auto s = make_engine(e, p.model, p.cb(k), p.st.get()); s->init(0); s->run(1); s->run(3); });
        }
        for (int k = 0; k < 12; k++)
            op(en + " hook " + std::to_string(k), [e, k] {
            Submodel m(nullptr, "m"), in(&m, "in");
            Hook h(&in, k);
            h.connect({}, {h.out});
            auto s = make_engine(e, m, nullptr, nullptr);
            for (int t = 0; t < 4; t++) s->run(t); });
        for (int k : {0, 1, 2})
        {
            op(en + " model hook " + std::to_string(k), [e, k] {
            HookModel m(k);
            Const c(1, &m);
            ScalarSignal o;
            c.connect({}, {o});
            auto s = make_engine(e, m, nullptr, nullptr);
            for (int t = 0; t < 4; t++) s->run(t); });
            op(en + " stepper " + std::to_string(k), [e, k] {Plant p; BadStepper b(k); auto s = make_engine(e, p.model, p.cb(), &b); s->init(0); s->run(1); });
        }
        op(en + " resumed", [e]
           {
            // fails, goes on, fails
            Plant p(5);
            auto s = make_engine(e, p.model, p.cb(3), p.st.get());
            for (int t = 0; t < 6; t++)
                try
                {
                    s->run(t);
                }
                catch (...)
                {
                } });
        op(en + " nested", [e]
           {
            // a simulation inside a callback of another one
            Plant p;
            auto inner = [&](int k) { Plant q(k); auto s = make_engine(2 - e, q.model, q.cb(), q.st.get()); s->init(0); s->run(1); };
            int n = 0;
            auto s = make_engine(e, p.model, [&](Block&, double t)
                                 {
                                     p.u = t;
                                     try
                                     {
                                         inner(n++);
                                     }
                                     catch (...)
                                     {
                                     } }, p.st.get());
            s->init(0);
            s->run(1); });
    }
    return r;
}
static void pairs()
{
    static const auto ops = operations();
    throw_kind            = choose(3);
    int n                 = mc::ex.thorough ? 2 : 2;
    std::string before    = probe(), txt;
    for (int i = 0; i < n; i++)
    {
        auto& o = ops[choose(int(ops.size()))];
        txt += (i ? ", then " : "") + o.first;
        bool threw = false;
        try
        {
            o.second();
        }
        catch (const mc::Violation&)
        {
            throw;
        }
        catch (...)
        {
            threw = true;
        }
        std::string after = probe();
        mc::ex.observe(std::uint64_t(threw));
        mc::ex.transition();
        MC_CHECK(before == after, txt << (threw ? " (threw)" : "") << ": an exception raised now says\n" << after << "\nand said before:\n" << before);
        mc::take_output();
    }
    MC_LOG(txt);
}
// the same failure many times
static void repeated()
{
    static const auto ops = operations();
    auto& o               = ops[choose(int(ops.size()))];
    throw_kind            = choose(3);
    std::string before    = probe();
    for (int i = 0; i < 40; i++)
    {
        try
        {
            o.second();
        }
        catch (...)
        {
        }
        mc::take_output();
    }
    MC_LOG(o.first);
    mc::ex.observe(std::uint64_t(throw_kind));
    MC_CHECK(probe() == before, "40 times " << o.first << ": an exception raised afterwards lists something");
}
// what an exception raised inside a block lists: nothing that is over
static void inside()
{
    int eng   = choose(3);
    int where = choose(7); // which block raises it
    int depth = choose(3);
    int when  = choose(4); // at which evaluation
    int state = choose(2);
    auto perm = mc::permutation(mc::ex.thorough ? 4 : 3);
    Submodel m(nullptr, "outermost"), s1(depth > 0 ? &m : nullptr, "middle"), s2(depth > 1 ? &s1 : nullptr, "inmost");
    Submodel& at = depth == 0 ? m : depth == 1 ? s1 : s2;
    std::vector<std::string> names;
    std::vector<std::unique_ptr<Block>> b;
    std::vector<ScalarSignal> sig;
    std::vector<ScalarSignal> keep;
    int n = int(perm.size());
    std::string text, raised;
    int count = 0;
    for (int i = 0; i < n; i++)
    {
        names.push_back("blk" + std::to_string(i) + "_");
        keep.emplace_back("s" + std::to_string(i));
    }
    auto act = [&](int i)
    {
        return [&, i](double t, const Bus& in, const Bus& out)
        {
            if (i == where && count++ == when)
            {
                raised = names[i];
                text   = probe();
            }
            ScalarSignal(out.at(0)) = in.size() ? ScalarSignal(in.at(0)) + 1 : t;
        };
    };
    if (where >= n && where != 5 && where != 6) throw mc::Discard{};
    for (int i : perm)
    {
        b.push_back(std::make_unique<Function>(act(i), &at, names[i]));
        if (i == 0)
            b.back()->connect({}, {keep[0]});
        else
            b.back()->connect({keep[i - 1]}, {keep[i]});
    }
    ScalarSignal x("x");
    Integrator integ(0, nullptr, "integ_");
    if (state)
    {
        integ.set_parent(at);
        integ.connect({keep[n - 1]}, {x});
    }
    names.push_back("integ_");
    auto cb = [&](Block&, double)
    {
        if (where == 5 && count++ == when)
        {
            raised = "input";
            text   = probe();
        }
    };
    Rk4 rk;
    auto sim = make_engine(eng, m, cb, state ? &rk : nullptr);
    for (int k = 0; k < 4; k++)
    {
        sim->run(k);
        if (where == 6 && k == when)
        {
            raised = "between";
            text   = probe();
        }
    }
    MC_LOG(engine_name(eng) << " depth " << depth << " raised in " << raised);
    MC_CHECK(!text.empty(), "harness: nothing raised");
    mc::ex.observe(std::uint64_t(where));
    MC_CHECK(in_progress_only(text, names, {raised}), "an exception raised in " << raised << " lists operations that are over:\n" << text);
    if (where == 6) MC_CHECK(text == probe() && in_progress_only(text, {"outermost", "middle", "inmost"}, {}), "an exception raised between two calls lists operations that are over:\n" << text);
}
// a thread has a trace of its own
static void threads()
{
    int eng   = choose(3);
    int where = choose(2);
    std::string fresh, in;
    std::thread([&] { fresh = probe(); }).join();
    Plant p;
    bool done = false;
    auto s    = make_engine(eng, p.model, [&](Block&, double t)
                         {
                             p.u = t;
                             if (where == 0 && !done)
                             {
                                 done = true;
                                 std::thread([&] { in = probe(); }).join();
                             } }, p.st.get());
    s->init(0);
    std::string here = probe();
    std::thread([&]
                {
                    s->run(1);
                    if (where == 1) in = probe(); })
        .join();
    mc::ex.observe(std::uint64_t(where));
    MC_CHECK(in == fresh, "an exception in another thread lists\n" << in << "\ninstead of\n" << fresh);
    MC_CHECK(probe() == here, "a call in another thread changed this thread's trace");
}
// library calls made in the middle of another one, or while an exception is on its way, or both
struct AtExit
{
    std::function<void()> f;
    ~AtExit() { f(); }
};
static void in_the_middle()
{
    static const auto ops = operations();
    auto& o  = ops[choose(int(ops.size()))];
    int where = choose(3); // a block, the input callback, nowhere
    int how   = choose(4); // 0: a plain call; 1: while unwinding; 2: while handling; 3: in an exception's handler while unwinding another one
    int eng   = choose(3);
    throw_kind = where;
    if (where == 2 && (how == 0 || eng)) throw mc::Discard{};
    bool done = false;
    std::string a, b, out = probe();
    auto call = [&]
    {
        a = probe();
        try
        {
            o.second();
        }
        catch (...)
        {
        }
        b = probe();
    };
    auto act = [&]
    {
        if (done) return;
        done = true;
        if (how == 0) return call();
        std::string x = probe();
        try
        {
            AtExit e{how == 1 ? std::function<void()>(call) : [] {}};
            AtExit g{how != 3 ? std::function<void()>([] {}) : [&]
                     {
                         try
                         {
                             throw Boom{};
                         }
                         catch (const Boom&)
                         {
                             call();
                         }
                     }};
            throw std::runtime_error("first");
        }
        catch (const std::exception&)
        {
            if (how == 2) call();
        }
        MC_CHECK(x == probe(), o.first << " while an exception is on its way: an exception raised after it says\n" << probe() << "\nand said before\n" << x);
    };
    if (where == 2)
        act();
    else
    {
        Submodel m(nullptr, "outer"), s(&m, "inner");
        ScalarSignal y("y");
        Function f([&](double, const Bus&, const Bus& q) { if (where == 0) act(); ScalarSignal(q.at(0)) = 1; }, &s, "fun");
        f.connect({}, {y});
        auto sim = make_engine(eng, m, [&](Block&, double) { if (where == 1) act(); }, nullptr);
        sim->run(0);
    }
    MC_LOG(o.first << " " << where << " " << how);
    MC_CHECK(done, "harness: not reached");
    mc::ex.observe(std::uint64_t(how));
    mc::ex.transition();
    MC_CHECK(a == b, o.first << " in the middle of " << (where == 0 ? "a block" : where == 1 ? "the input callback" : "nothing") << (how ? ", an exception on its way" : "") << ": an exception raised after it says\n" << b << "\nand said before\n" << a);
    MC_CHECK(out == probe(), o.first << ": afterwards, an exception says\n" << probe() << "\nand said before\n" << out);
    mc::take_output();
}
// long lists of what is in progress: deep models, simulations inside simulations, long paths
static void deep()
{
    static const auto ops = operations();
    int depth = pick({1, 20, 70, 140});
    int way   = choose(3);
    int eng   = choose(3);
    int fails = choose(3); // nothing; the innermost block, after looking; something caught there
    auto& o   = ops[fails == 2 ? choose(int(ops.size()) / 11) * 11 + depth % 11 : 0];
    throw_kind         = 0;
    std::string before = probe(), a, b;
    auto inmost        = [&]
    {
        a = probe();
        if (fails == 2)
            try
            {
                o.second();
            }
            catch (...)
            {
            }
        b = probe();
        if (fails == 1) boom();
    };
    try
    {
        if (way == 0)
        {
            std::vector<std::unique_ptr<Submodel>> s;
            for (int i = 0; i < depth; i++) s.push_back(std::make_unique<Submodel>(i ? s.back().get() : nullptr, "deep"));
            ScalarSignal y("y"), x("x");
            bool done = false;
            Function f([&](double t, const Bus&, const Bus& q) { if (!done) { done = true; inmost(); } ScalarSignal(q.at(0)) = t; }, s.back().get(), "fun");
            f.connect({}, {y});
            Integrator in(0, s[depth / 2].get(), "state");
            in.connect({y}, {x});
            Rk4 rk;
            auto sim = make_engine(eng, *s[0], nullptr, &rk);
            sim->init(0);
            sim->run(1);
        }
        else if (way == 1)
        {
            std::function<void(int)> nest = [&](int left)
            {
                if (!left) return inmost();
                Submodel m(nullptr, "outer"), s(&m, "inner");
                ScalarSignal y("y");
                bool done = false;
                Function f([&](double t, const Bus&, const Bus& q) { if (!done) { done = true; nest(left - 1); } ScalarSignal(q.at(0)) = t; }, &s, "fun");
                f.connect({}, {y});
                auto sim = make_engine((eng + left) % 3, m, nullptr, nullptr);
                std::string x = probe();
                sim->run(0);
                MC_CHECK(x == probe(), "simulations inside each other, " << depth << " deep: an exception raised after one of them says\n" << probe());
            };
            nest(depth / 5 + 1);
        }
        else
        {
            ScalarSignal leaf("leaf");
            Signal cur(leaf);
            std::string path = "x";
            for (int i = 0; i < depth; i++)
            {
                cur = Bus({{"x", cur}}, "b");
                if (i) path += ".x";
            }
            Bus b0(cur);
            (void)b0.at(path);
            inmost();
            (void)b0->try_at(path + ".x");
            (void)b0.at(path + ".x"); // goes on through the value
        }
    }
    catch (const mc::Violation&)
    {
        throw;
    }
    catch (...)
    {
    }
    mc::ex.observe(std::uint64_t(depth));
    mc::ex.transition();
    std::string how = std::string(way == 0 ? "submodels " : way == 1 ? "simulations " : "buses ") + std::to_string(depth) + " deep, " + o.first;
    MC_LOG(how);
    MC_CHECK(a == b, how << ": an exception raised in the innermost block after it says\n" << b << "\nand said before\n" << a);
    MC_CHECK(before == probe(), how << ": an exception raised afterwards says\n" << probe() << "\nand said before\n" << before);
    mc::take_output();
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv, {{"pairs", pairs}, {"repeated", repeated}, {"inside", inside}, {"in the middle", in_the_middle}, {"deep", deep}, {"threads", threads}});
}
