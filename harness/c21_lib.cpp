// the programs of C21; compiled once with and once without NDEBUG
#include "drive.hpp"
using namespace ref;
#define EXPORT extern "C" __attribute__((visibility("default")))
static void (*value)(double, const char*);
static void note(double v, const std::string& what) { value(v, what.c_str()); }
static void note(const std::string& s, const std::string& what)
{
    for (unsigned char c : s) note(double(c), what);
    note(-1, what);
}
static void note(const Val& v, const std::string& what)
{
    for (double x : v.v) note(x, what);
}
static void look(const std::vector<pooya::Signal>& sig, const std::string& what)
{
    for (std::size_t i = 0; i < sig.size(); i++)
    {
        bool a = assigned(sig[i]);
        note(a, what + ", x" + std::to_string(i) + " assigned");
        if (a) note(read(sig[i]), what + ", x" + std::to_string(i));
    }
}
static void look(pooya::History& h, const std::vector<pooya::Signal>& sig, const std::string& what)
{
    note(h.nrows(), what + ", rows");
    for (unsigned k = 0; k < h.nrows(); k++) note(h.time()(k), what + ", time");
    for (auto& s : sig)
    {
        auto p = std::dynamic_pointer_cast<pooya::ValueSignalImpl>(s->shared_from_this());
        note(double(h.count(p)), what + ", recorded");
        if (!h.count(p)) continue;
        const auto& m = h[s];
        for (unsigned k = 0; k < h.nrows(); k++)
            for (int j = 0; j < m.cols(); j++) note(m(k, j), what + ", record of " + s.impl().name().str());
    }
}
static int any_block(Diagram& d, int k, Ty ty, int size, int in, int in2, int i)
{
    switch (k)
    {
    case KConst:
    case KSource: return d.add(Kind(k), {}, Val(ty, std::vector<double>(size, 1.5)), 0, i, ty, size);
    case KDelay: return d.add(KDelay, {in, d.add(KConst, {}, Val(0.375)), in2}, Val(), 2, 0, ty, size);
    case KTrig:
    {
        int trg = d.add(KSource, {}, Val(), 0, i, TB);
        return d.add(KTrig, {in, trg}, Val(ty, std::vector<double>(size, 0.5)), 0, 0, ty, size);
    }
    case KSub:
    case KDiv: return d.add(Kind(k), {in, in2}, Val(), 0, 0, ty, size);
    case KAdd:
    case KMul: return d.add(Kind(k), {in, in2, in}, Val(ty, std::vector<double>(size, 2)), 0, 0, ty, size);
    case KSo:
    case KFunc: return d.add(Kind(k), {in, in2}, Val(), 0, i, ty, size);
    case KSources:
    {
        Node n;
        n.k   = KSources;
        n.out = {d.sig(ty, size), d.sig(TI)};
        n.fn  = i;
        d.nodes.push_back(n);
        return n.out[0];
    }
    default: return d.add(Kind(k), {in}, Val(ty, std::vector<double>(size, 0.75 + i)), 1.25, i, ty, size);
    }
}
// any two blocks in a row, fed from outside, from a state or from each other; inputs that may be missing
static void models(bool thorough)
{
    Ty ty    = choose(2) ? TA : TS;
    int size = ty == TA ? 3 : 1;
    Diagram d;
    int e  = d.input(1, ty, size);
    int k1 = choose(KNumKinds), k2 = choose(KNumKinds), feed = choose(4);
    int s  = d.sig(ty, size);
    int a  = any_block(d, k1, ty, size, feed == 1 || feed == 2 ? s : e, e, 1);
    int b  = any_block(d, k2, ty, size, a, feed == 3 ? s : e, 2);
    if (feed == 2)
        d.add(KPipe, {b}, Val(), 0, 0, ty, size, s); // a loop, algebraic or not
    else
        d.add(KInteg, {b}, Val(ty, std::vector<double>(size, 0.25)), 0, 0, ty, size, s);
    bool missing = feed == 0 && choose(2);
    if (missing)
        d.input_fn = [ty, size](int, double t, Val& v)
        {
            v = src_val(1, t, ty, size);
            return t < 1;
        };
    BuildOpt o;
    if ((k1 + k2) % 2)
        for (int i = int(d.nodes.size()); i-- > 0;) o.order.push_back(i);
    int eng = choose(3), stp = thorough ? choose(3) : (k1 + k2 + feed) % 3;
    if (!steps_determined(d, stp, {0, {0.5, 0.75, 0.75, 2.0}, 0.125, 0.5, true})) throw std::runtime_error("the steps are not determined");
    auto bt  = build(d, o);
    auto st  = make_stepper(stp);
    auto sim = make_engine(eng, bt->model(), bt->inputs(), st.get());
    pooya::History h(2);
    for (auto& x : bt->sig) h.track(x);
    bool all = true;
    unsigned row = 0;
    auto step = [&](double t)
    {
        look(bt->sig, "t=" + std::to_string(t) + " " + d.text());
        for (auto& x : bt->sig) all = all && assigned(x);
        if (all) h.update(row++, t);
    };
    if (k1 % 2)
        sim->init(0);
    else
        sim->run(0);
    step(0);
    for (double t : {0.5, 0.75, 0.75, 2.0})
    {
        sim->run(t, 0.125, 0.5);
        step(t);
    }
    look(h, bt->sig, "history");
    for (auto& x : bt->blocks) note(x->full_name().str(), "block name");
    for (auto& x : bt->sig) note(x.impl().name().str(), "signal name");
}
// every sequence of answers of a stepper, unusual limits, repeated calls
static void stepping(bool thorough)
{
    Script s;
    for (int i = 0; i < (thorough ? 5 : 4); i++) s.acts.push_back(choose(ANumActs));
    s.extras = {choose(2)};
    int eng  = choose(3);
    struct Limits
    {
        double hmin, hmax;
    };
    auto l = pick(std::vector<Limits>{{0.03125, 0.5}, {0.25, 0.25}, {1e-3, 100}, {0.5, 0.125}});
    Diagram d;
    int x = d.sig(), y = d.sig(TA, 2), u = d.input(0);
    int a = d.add(KSub, {u, x});
    d.add(KInteg, {a}, Val(1), 0, 0, TS, 1, x);
    d.add(KTrig, {d.add(KGain, {y}, Val(), -1, 0, TA, 2), d.add(KSource, {}, Val(), 0, 1, TB)}, Val(TA, {1, 2}), 0, 0, TA, 2, y);
    d.add(KMem, {x}, Val(7));
    auto bt  = build(d);
    auto st  = std::make_shared<ScriptedStepper>(s);
    auto sim = make_engine(eng, bt->model(), bt->inputs(), st.get());
    sim->init(0);
    look(bt->sig, "init");
    for (double t : {0.75, 0.75, 1.25, 2.0})
    {
        sim->run(t, l.hmin, l.hmax);
        look(bt->sig, "t=" + std::to_string(t));
        note(st->n, "attempted steps");
    }
}
template<typename H, typename T>
static void signal_ops(const std::vector<T>& vals, H a, H b, bool thorough)
{
    H h(a);
    pooya::Bus bus({{"p", a}, {"q", b}});
    std::vector<pooya::Signal> all{a, b};
    for (int k = 0; k < (thorough ? 7 : 5); k++)
    {
        const T& v = vals[k % vals.size()];
        switch (choose(9))
        {
        case 0: a = v; break;
        case 1: h->set_value(v); break;
        case 2: b = a; break;
        case 3: a->clear(); break;
        case 4: h->clear(); break;
        case 5: h.reset(b); break;
        case 6: H(bus.at("q")) = v; break;
        case 7:
        {
            T x = h; // reads
            T y = b->get_value();
            a->clear();
            a->set_value(x);
            h->clear();
            h->set_value(y);
            break;
        }
        default: h.reset(a);
        }
        look(all, "operation " + std::to_string(k));
        note(h->assigned(), "handle assigned");
        note(h.impl().name().str(), "handle name");
    }
}
static void signals(bool thorough)
{
    switch (choose(5))
    {
    case 0: return signal_ops<pooya::ScalarSignal, double>({1.5, -0.0, 1e308}, pooya::ScalarSignal("a"), pooya::ScalarSignal("b"), thorough);
    case 1: return signal_ops<pooya::IntSignal, int>({7, -2147483647, 0}, pooya::IntSignal("a"), pooya::IntSignal("b"), thorough);
    case 2: return signal_ops<pooya::BoolSignal, bool>({true, false, false}, pooya::BoolSignal("a"), pooya::BoolSignal("b"), thorough);
    default:
        // lengths that do not always fit: the debug build complains
        Array x(2), y(2), z(3);
        x << 1, 2;
        y << -3, 0.5;
        z << 4, 5, 6;
        int fit = choose(2);
        return signal_ops<pooya::ArraySignal, Array>({x, y, fit ? x : z}, pooya::ArraySignal(2, "a"), pooya::ArraySignal(fit ? 2 : 3, "b"), thorough);
    }
}
static void histories(bool thorough)
{
    std::vector<pooya::Signal> s{pooya::ScalarSignal("s"), pooya::IntSignal("i"), pooya::BoolSignal("b"), pooya::ArraySignal(std::size_t(2), "a"), pooya::Bus({}, "bus")};
    std::vector<pooya::Signal> vals(s.begin(), s.begin() + 4);
    pooya::History h(pick({1u, 3u}));
    note(h.track(s[0]), "tracked");
    note(h.track(s[3]), "tracked");
    unsigned row = 0;
    double t     = 0;
    int n        = 0;
    for (int k = 0; k < (thorough ? 6 : 4); k++)
    {
        int op        = choose(9);
        auto w        = "operation " + std::to_string(op);
        auto assign   = [&](int from)
        {
            for (int i = from; i < 4; i++)
            {
                vimpl(s[i]).clear();
                Ty ty = i == 3 ? TA : Ty(i);
                Val v = zero(ty, 2);
                for (std::size_t e = 0; e < v.v.size(); e++) v.v[e] = ty == TB ? double(n & 1) : n * 3 + double(e);
                write(s[i], v);
            }
            n++;
            t += 0.5;
        };
        switch (op)
        {
        case 0:
            assign(0);
            h.update(row++, t);
            break;
        case 1:
            assign(0);
            h.update(row, t); // the row again later
            break;
        case 2:
            assign(0);
            for (int i = 0; i < 3; i++) h.update(row++, t + i * 0.125);
            break;
        case 3: note(h.track(s[1 + k % 2]), w); break;
        case 4: h.untrack(s[k % 4]); break;
        case 5: h.shrink_to_fit(); break;
        case 6: note(h.track(s[4]), w); break;
        case 7:
        {
            std::string f = "c21_" + std::to_string(getpid()) + ".csv";
            h.export_csv(f);
            std::ifstream in(f);
            std::string txt((std::istreambuf_iterator<char>(in)), {});
            std::remove(f.c_str());
            std::vector<std::string> lines;
            // the columns may come in any order
            note(double(std::count(txt.begin(), txt.end(), ',')), w + " commas");
            note(double(std::count(txt.begin(), txt.end(), '\n')), w + " lines");
            break;
        }
        default: vimpl(s[0]).clear(); assign(1); h.update(row++, t); // one of them has no value
        }
        look(h, vals, w);
    }
}
static void buses(bool)
{
    static const std::vector<std::string> labels{"a", "b", "a b", "", "1x", "a.b", "/", "sig0"};
    auto l1 = pick(labels), l2 = pick(labels), l3 = pick(labels);
    int style = choose(3);
    pooya::ScalarSignal x("x"), un;
    pooya::ArraySignal v(std::size_t(2));
    pooya::Bus inner = style == 2 ? make_bus({x, v}, l1) : make_lbus({{l1, x}, {l2, v}}, l3);
    pooya::Bus outer = style == 1 ? make_bus({un, inner}) : make_lbus({{l3, un}, {l2, inner}}, l1);
    note(un.impl().name().str(), "name");
    note(v.impl().name().str(), "name");
    note(inner.impl().name().str(), "name");
    note(outer.impl().name().str(), "name");
    std::vector<pooya::Signal> all{x, un, v, inner, outer};
    auto who = [&](const pooya::Signal& s)
    {
        for (std::size_t i = 0; i < all.size(); i++)
            if (&all[i].impl() == &s.impl()) return double(i);
        return -1.0;
    };
    for (auto* b : {&inner, &outer})
    {
        note(double(b->size()), "size");
        for (auto& p : *b)
        {
            note(p.first, "label");
            note(who(p.second), "signal of " + p.first);
        }
        for (std::size_t i = 0; i < b->size(); i++)
        {
            note(who(b->at(i)), "at");
            note(who((*b)[i]), "[]");
        }
        for (auto& p : *b) note(who((*b)[p.first]), "[label]");
        std::vector<std::string> keys = labels;
        for (auto& k : labels)
            for (auto& j : labels) keys.push_back(k + "." + j);
        for (auto& k : keys)
        {
            auto r = static_cast<pooya::BusImpl&>(b->impl()).try_at(k);
            note(r ? who(*r) : -2, "try_at " + k);
        }
    }
    // one lookup that may fail
    auto k = pick(labels) + (choose(2) ? "." + pick(labels) : "");
    note(who(outer.at(k)), "at " + k);
}
static void structure(bool)
{
    using namespace pooya;
    Submodel m(nullptr, "m 1"), n(&m, "n"), o(nullptr, "/o");
    ScalarSignal a("a"), b("b"), c("c");
    Gain g(2, nullptr, "g");
    Add s(1, choose(2) ? &n : nullptr, "s");
    std::vector<Block*> bl{&n, &o, &g, &s};
    std::vector<Submodel*> par{&m, &n, &o};
    for (int k = 0; k < 3; k++)
    {
        int op = choose(8);
        switch (op)
        {
        case 0: note(g.set_parent(*pick(par)), "set_parent"); break;
        case 1: note(s.set_parent(*pick(par)), "set_parent"); break;
        case 2: note(o.set_parent(m), "set_parent"); break;
        case 3: note(g.connect({a}, {b}), "connect"); break;
        case 4: note(s.connect({a, b}, {c}), "connect"); break;
        case 5: note(pick(par)->add_block(g, {a}, {b}), "add_block"); break;
        case 6: note(pick(par)->add_block(s, {b, b}, {c}), "add_block"); break;
        default: note(pick(par)->link_block(g), "link_block");
        }
        for (auto* x : bl)
        {
            note(x->full_name().str(), "name");
            note(double(x->linked_signals().size()), "linked signals");
            note(x->connected(), "connected");
        }
        for (auto* p : par)
            p->visit(
                [&](Block& x, uint32_t l)
                {
                    note(x.full_name().str() + std::to_string(l), "visited");
                    return true;
                },
                0);
    }
    if (!g.connected() || !s.connected()) return;
    std::vector<Signal> all{a, b, c};
    auto sim = make_engine(choose(3), m, [&](Block&, double t) { a = t + 1; }, nullptr);
    sim->init(0);
    look(all, "init");
    sim->run(1);
    look(all, "run");
}
static void bus_blocks(bool)
{
    using namespace pooya;
    Submodel m(nullptr, "m");
    auto mk = [](const std::string& p)
    {
        return Bus({{"s", ScalarSignal(p + "s")}, {"i", IntSignal(p + "i")}, {"in", Bus({{"b", BoolSignal(p + "b")}, {"a", ArraySignal(std::size_t(2), p + "a")}})}});
    };
    Bus x = mk("x"), y = mk("y"), z = mk("z");
    std::vector<std::string> paths{"s", "i", "in.b", "in.a"};
    std::vector<Signal> all;
    for (auto* b : {&x, &y, &z})
        for (auto& p : paths) all.push_back(b->at(p));
    Array a(2);
    a << 5, 6;
    using LV = BusMemory::LabelValue;
    int init = choose(4), skip = choose(3);
    std::unique_ptr<BusMemory> mem;
    std::initializer_list<std::string> none{}, one{"i"}, sub{"in.a"};
    auto& ex = skip == 0 ? none : skip == 1 ? one : sub;
    if (init == 0) mem = std::make_unique<BusMemory>(m, std::initializer_list<LV>{}, ex);
    if (init == 1) mem = std::make_unique<BusMemory>(m, std::initializer_list<LV>{LV{"s", 2.5}, LV{"in.b", true}, LV{"in.a", a}}, ex);
    if (init == 2) mem = std::make_unique<BusMemory>(m, std::initializer_list<LV>{LV{"i", 4}, LV{"nothing", 1.0}}, ex);
    if (init == 3) mem = std::make_unique<BusMemory>(m, std::initializer_list<LV>{LV{"s", 1}}, ex); // an int for a scalar
    BusPipe pipe(m);
    int order = choose(2), eng = choose(3);
    if (order) pipe.connect(y, z);
    mem->connect(x, y);
    if (!order) pipe.connect(y, z);
    auto cb = [&](Block&, double t)
    {
        write(x.at("s"), Val(t + 1));
        write(x.at("i"), Val(TI, {std::floor(t * 4)}));
        write(x.at("in.b"), Val(TB, {double(int(t) & 1)}));
        write(x.at("in.a"), Val(TA, {t, -t}));
        if (skip == 1) write(y.at("i"), Val(TI, {9}));
        if (skip == 2) write(y.at("in.a"), Val(TA, {8, 7}));
    };
    auto sim = make_engine(eng, m, cb, nullptr);
    sim->init(0);
    look(all, "init");
    for (double t : {0.5, 1.0, 1.0, 2.0})
    {
        sim->run(t);
        look(all, "run");
    }
}
// steps of any size: what a stepper recommends, down to where times stop being distinguishable
static void small_steps(bool thorough)
{
    struct Sized : pooya::StepperBase
    {
        std::vector<double> rec;
        int n{0};
        void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
        {
            Array k = cb(t0, v0);
            v1      = v0 + (t1 - t0) * k;
            note(t0, "step from");
            note(t1, "step to");
            new_h = rec[n++ % rec.size()] * (t1 - t0);
            if (n > 3000) throw std::runtime_error("too many steps");
        }
    };
    double t0   = pick({0.0, -3.0, 1e6, 1e-9});
    double unit = pick({1e-9, 1e-6, 1e-4, 1e-3, 1.0, 1e4, 1e8});
    double hmin = unit * pick({1.0 / 64, 1.0 / 4, 1e-3});
    double hmax = unit * pick({0.5, 1.0, 40.0});
    auto st     = std::make_shared<Sized>();
    for (int i = 0; i < (thorough ? 3 : 2); i++) st->rec.push_back(pick({0.25, 1.0, 3.0, 0.0, 0.7}));
    Diagram d;
    int x = d.sig(), u = d.input(0), a = d.add(KSub, {u, x});
    d.add(KInteg, {a}, Val(1), 0, 0, TS, 1, x);
    d.add(KDelay, {u, d.add(KConst, {}, Val(unit)), x}, Val(), 3 * unit);
    d.add(KDeriv, {x}, Val(2));
    auto bt  = build(d);
    auto sim = make_engine(choose(2), bt->model(), bt->inputs(), st.get());
    sim->init(t0);
    look(bt->sig, "init");
    for (double k : {1.0, 1.0, 2.5})
    {
        sim->run(t0 + k * unit, hmin, hmax);
        look(bt->sig, "t=" + std::to_string(k));
    }
}
EXPORT int c21_run(int scope, int thorough, int (*choose)(int), void (*v)(double, const char*), char* err, int len)
{
    mc::choose_elsewhere = choose;
    mc::reset_trail();
    mc::ex.mute          = 1;
    value                = v;
    try
    {
        switch (scope)
        {
        case 0: models(thorough); break;
        case 1: stepping(thorough); break;
        case 2: signals(thorough); break;
        case 3: histories(thorough); break;
        case 4: buses(thorough); break;
        case 5: structure(thorough); break;
        case 6: bus_blocks(thorough); break;
        default: small_steps(thorough);
        }
    }
    catch (const mc::Violation& x)
    {
        std::snprintf(err, len, "%s", x.msg.c_str());
        return 2;
    }
    catch (const std::exception& x)
    {
        std::snprintf(err, len, "%s", x.what());
        return 1;
    }
    return 0;
}
