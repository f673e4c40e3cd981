// Diagrams as data: built for real with the library (Built) and interpreted by an independent reference (RefSim).
#pragma once
#include "mc.hpp"
#include "pooya_all.hpp"

namespace ref
{
using mc::choose;
using mc::pick;
using pooya::Array;
enum Ty
{
    TS, // scalar
    TI, // int
    TB, // bool
    TA, // array
};
struct Val
{
    Ty ty{TS};
    std::vector<double> v{0.0};
    Val() = default;
    Val(double d) : v{d} {}
    Val(Ty t, std::vector<double> x) : ty(t), v(std::move(x)) {}
    double s() const { return v[0]; }
};
inline Val zero(Ty ty, int size) { return Val(ty, std::vector<double>(ty == TA ? size : 1, 0.0)); }
inline Array to_array(const Val& v)
{
    Array a(int(v.v.size()));
    for (std::size_t i = 0; i < v.v.size(); i++) a[int(i)] = v.v[i];
    return a;
}
inline Val from_array(const Array& a) { return Val(TA, std::vector<double>(a.data(), a.data() + a.size())); }
inline std::ostream& operator<<(std::ostream& o, const Val& v) { return o << mc::str(v.v); }
inline bool close(const Val& a, const Val& b, double tol = 1e-9)
{
    if (a.v.size() != b.v.size()) return false;
    for (std::size_t i = 0; i < a.v.size(); i++)
        if (!mc::close(a.v[i], b.v[i], tol)) return false;
    return true;
}

// ---- signals of the library, type erased -------------------------------------------------------------------
inline pooya::ValueSignalImpl& vimpl(const pooya::Signal& s)
{
    auto* p = dynamic_cast<pooya::ValueSignalImpl*>(&s.impl());
    if (!p) MC_FAIL("harness: value signal expected");
    return *p;
}
inline bool assigned(const pooya::Signal& s) { return vimpl(s).assigned(); }
inline Val read(const pooya::Signal& s)
{
    if (auto* p = dynamic_cast<pooya::ScalarSignalImpl*>(&s.impl())) return Val(TS, {p->get_value()});
    if (auto* p = dynamic_cast<pooya::IntSignalImpl*>(&s.impl())) return Val(TI, {double(p->get_value())});
    if (auto* p = dynamic_cast<pooya::BoolSignalImpl*>(&s.impl())) return Val(TB, {double(p->get_value())});
    if (auto* p = dynamic_cast<pooya::ArraySignalImpl*>(&s.impl())) return from_array(p->get_value());
    MC_FAIL("harness: value signal expected");
}
inline void write(const pooya::Signal& s, const Val& v)
{
    if (auto* p = dynamic_cast<pooya::ScalarSignalImpl*>(&s.impl()))
        p->set_value(v.s());
    else if (auto* p = dynamic_cast<pooya::IntSignalImpl*>(&s.impl()))
        p->set_value(int(v.s()));
    else if (auto* p = dynamic_cast<pooya::BoolSignalImpl*>(&s.impl()))
        p->set_value(v.s() != 0);
    else if (auto* p = dynamic_cast<pooya::ArraySignalImpl*>(&s.impl()))
        p->set_value(to_array(v));
}
inline pooya::Signal make_signal(Ty ty, int size, const std::string& name)
{
    switch (ty)
    {
    case TI: return pooya::IntSignal(name);
    case TB: return pooya::BoolSignal(name);
    case TA: return pooya::ArraySignal(std::size_t(size), name);
    default: return pooya::ScalarSignal(name);
    }
}

// a Bus of any of the supported lengths (the library takes initializer lists only)
using Labelled = std::pair<std::string, pooya::Signal>;
template<std::size_t... I>
pooya::Bus bus_n(const std::vector<pooya::Signal>& v, const std::string& name, std::index_sequence<I...>)
{
    return pooya::Bus(std::initializer_list<pooya::Signal>{v[I]...}, name);
}
template<std::size_t... I>
pooya::Bus lbus_n(const std::vector<Labelled>& v, const std::string& name, std::index_sequence<I...>)
{
    return pooya::Bus(std::initializer_list<Labelled>{v[I]...}, name);
}
#define MC_BUS_SIZES(F, v)                                                                                             \
    switch (v.size())                                                                                                  \
    {                                                                                                                  \
        F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11) F(12) F(13) F(16) F(20) F(33)                         \
    }                                                                                                                  \
    MC_FAIL("harness: no bus of size " << v.size())
inline pooya::Bus make_bus(const std::vector<pooya::Signal>& v, const std::string& name = "")
{
#define F(N)                                                                                                           \
    case N: return bus_n(v, name, std::make_index_sequence<N>());
    if (v.empty()) return pooya::Bus(std::initializer_list<pooya::Signal>{}, name);
    MC_BUS_SIZES(F, v);
#undef F
}
inline pooya::Bus make_lbus(const std::vector<Labelled>& v, const std::string& name = "")
{
#define F(N)                                                                                                           \
    case N: return lbus_n(v, name, std::make_index_sequence<N>());
    if (v.empty()) return pooya::Bus(std::initializer_list<pooya::Signal>{}, name);
    MC_BUS_SIZES(F, v);
#undef F
}

// ---- functions the user supplies (used by both sides) ------------------------------------------------------
inline double src_fn(int id, double t, int i = 0)
{
    switch (id % 6)
    {
    case 0: return 3 + 2 * t + i;
    case 1: return t * t - 1 - 2 * i;
    case 2: return t < 0.75 ? 1 + i : -2 - i;
    case 3: return 5 - t * (1 + i);
    case 4: return -0.5 * (i + 1);
    default: return std::floor(4 * t) * (1 + i) + 0.25;
    }
}
inline Val src_val(int id, double t, Ty ty, int size)
{
    if (ty == TI) return Val(TI, {std::floor(4 * t) + id});
    if (ty == TB) return Val(TB, {double((long(std::floor(4 * t)) + id) & 1)});
    Val r = zero(ty, size);
    for (std::size_t i = 0; i < r.v.size(); i++) r.v[i] = src_fn(id, t, int(i));
    return r;
}
inline double siso_fn(int id, double t, double x, int i = 0)
{
    switch (id % 3)
    {
    case 0: return 2 * x + 1 + i;
    case 1: return x * x / 4 - t + i;
    default: return t * 2 - x / 2 - i;
    }
}
inline Val so_val(int id, double t, const std::vector<Val>& in, Ty ty, int size)
{
    Val r = zero(ty, size);
    for (std::size_t i = 0; i < r.v.size(); i++)
    {
        double s = (id + 1) * t + i;
        for (std::size_t k = 0; k < in.size(); k++)
            s += (double(k) + 1 + 0.25 * id) * in[k].v[in[k].v.size() > 1 ? i % in[k].v.size() : 0];
        r.v[i] = ty == TI ? double(int(s)) : ty == TB ? double((long(std::floor(s)) & 1) != 0) : s;
    }
    return r;
}

// ---- diagrams ----------------------------------------------------------------------------------------------
enum Kind
{
    KConst,
    KSource,
    KGain,
    KPipe,
    KAdd,
    KSub,
    KMul,
    KDiv,
    KSiso,
    KSo,
    KFunc,
    KSources,
    KMem,
    KDelay,
    KDeriv,
    KInit,
    KInteg,
    KTrig,
    KNumKinds
};
inline const char* kind_name(int k)
{
    static const char* n[] = {"Const", "Source", "Gain",    "Pipe",   "Add",        "Subtract",     "Multiply",   "Divide", "SISOFunction",
                              "SOFunction", "Function", "Sources", "Memory", "Delay", "Derivative", "InitialValue", "Integrator", "TriggeredIntegrator"};
    return n[k];
}
struct Node
{
    Kind k;
    Ty ty{TS};
    int size{1};
    std::vector<int> in, out; // signal ids
    Val p;                    // constant / initial value
    double d{0};              // gain / lifespan
    int fn{0};
    int parent{0}; // submodel
    std::string name;
};
struct Sig
{
    Ty ty{TS};
    int size{1};
    int input{-1}; // external input: function id
};
struct Diagram
{
    std::vector<Sig> sigs;
    std::vector<Node> nodes;
    std::vector<int> sub_parent{-1}; // sub_parent[0] = -1: the model
    // what an external input (by signal id) is at a time; false: nobody provides it
    std::function<bool(int, double, Val&)> input_fn;
    bool input_value(int s, double t, Val& v) const
    {
        if (input_fn) return input_fn(s, t, v);
        v = src_val(sigs[s].input, t, sigs[s].ty, sigs[s].size);
        return true;
    }
    int sig(Ty ty = TS, int size = 1)
    {
        sigs.push_back({ty, size, -1});
        return int(sigs.size()) - 1;
    }
    int input(int fn, Ty ty = TS, int size = 1)
    {
        sigs.push_back({ty, size, fn});
        return int(sigs.size()) - 1;
    }
    // adds a node with one output signal, returns the id of that signal
    int add(Kind k, std::vector<int> in, Val p = Val(), double d = 0, int fn = 0, Ty ty = TS, int size = 1, int out = -1)
    {
        if (out < 0) out = sig(ty, size);
        Node n;
        n.k    = k;
        n.ty   = ty;
        n.size = size;
        n.in   = std::move(in);
        n.out  = {out};
        n.p    = std::move(p);
        n.d    = d;
        n.fn   = fn;
        nodes.push_back(n);
        return out;
    }
    // an input callback may set signals that are linked to a block only
    bool used(int s) const
    {
        for (auto& n : nodes)
            if (std::find(n.in.begin(), n.in.end(), s) != n.in.end()) return true;
        return false;
    }
    std::string text() const
    {
        std::ostringstream o;
        for (std::size_t i = 0; i < sigs.size(); i++)
            if (sigs[i].input >= 0) o << "x" << i << "=input" << sigs[i].input << (sigs[i].ty == TA ? "[]" : "") << "; ";
        for (auto& n : nodes)
        {
            for (int s : n.out) o << "x" << s << " ";
            o << "= " << kind_name(n.k) << (n.ty == TA ? "A" : n.ty == TI ? "I" : n.ty == TB ? "B" : "") << "(";
            for (int s : n.in) o << "x" << s << " ";
            o << "; p=" << n.p << " d=" << n.d << " f=" << n.fn << (n.parent ? " in submodel " + std::to_string(n.parent) : "")
              << "); ";
        }
        return o.str();
    }
};

// ---- the real thing ----------------------------------------------------------------------------------------
struct BuildOpt
{
    std::vector<int> order; // order in which the blocks are made (empty: varies)
    int style{-1};          // -1: varies; 0: made with their parent, then connected; 1: add_block; 2: all made first, connected in reverse
    int subs{0};            // 0: submodels made before the blocks; 1: linked to their parent after their blocks
    bool named{true};
};
struct HookSubmodel : pooya::Submodel
{
    using pooya::Submodel::Submodel;
    std::function<void(double)> hook;
    void input_cb(double t) override
    {
        if (hook) hook(t);
    }
};
struct Built
{
    std::vector<pooya::Signal> sig;
    std::vector<std::unique_ptr<pooya::Submodel>> subs;
    std::vector<std::unique_ptr<pooya::Block>> blocks; // by node
    const Diagram* d;
    pooya::Submodel& model() { return *subs[0]; }
    // the inputs come from the callback (0), from the model's own hook (1) or from both (2)
    std::function<void(pooya::Block&, double)> inputs(int mode = -1)
    {
        if (mode < 0) mode = mc::spread(3);
        auto* m = dynamic_cast<HookSubmodel*>(subs[0].get());
        if (!m) MC_FAIL("harness: model without hook");
        auto& hook = m->hook;
        hook       = nullptr;
        if (mode == 0) return setter(0, 1);
        auto f = mode == 1 ? setter(0, 1) : setter(1, 2);
        hook   = [this, f](double t) { f(*subs[0], t); };
        if (mode == 1) return nullptr;
        return setter(0, 2);
    }
    std::function<void(pooya::Block&, double)> setter(int first, int step)
    {
        std::vector<int> ids;
        int k = 0;
        for (std::size_t i = 0; i < sig.size(); i++)
            if (d->sigs[i].input >= 0 && d->used(int(i)) && k++ % step == first) ids.push_back(int(i));
        return [this, ids](pooya::Block&, double t)
        {
            for (int i : ids)
            {
                Val v;
                if (d->input_value(i, t, v)) write(sig[i], v);
            }
        };
    }
};

template<template<typename> class B, typename... A>
std::unique_ptr<pooya::Block> make_t(Ty ty, const Val& p, A&&... a)
{
    switch (ty)
    {
    case TI: return std::make_unique<B<int>>(int(p.s()), std::forward<A>(a)...);
    case TB: return std::make_unique<B<bool>>(p.s() != 0, std::forward<A>(a)...);
    case TA: return std::make_unique<B<Array>>(to_array(p), std::forward<A>(a)...);
    default: return std::make_unique<B<double>>(p.s(), std::forward<A>(a)...);
    }
}
template<template<typename> class B, typename... A>
std::unique_ptr<pooya::Block> make_sai(Ty ty, A&&... a)
{
    switch (ty)
    {
    case TI: return std::make_unique<B<int>>(std::forward<A>(a)...);
    case TA: return std::make_unique<B<Array>>(std::forward<A>(a)...);
    default: return std::make_unique<B<double>>(std::forward<A>(a)...);
    }
}
template<template<typename> class B, typename... A>
std::unique_ptr<pooya::Block> make_psai(Ty ty, const Val& p, A&&... a)
{
    switch (ty)
    {
    case TI: return std::make_unique<B<int>>(int(p.s()), std::forward<A>(a)...);
    case TA: return std::make_unique<B<Array>>(to_array(p), std::forward<A>(a)...);
    default: return std::make_unique<B<double>>(p.s(), std::forward<A>(a)...);
    }
}
template<template<typename> class B, typename... A>
std::unique_ptr<pooya::Block> make_psa(Ty ty, const Val& p, A&&... a)
{
    if (ty == TA) return std::make_unique<B<Array>>(to_array(p), std::forward<A>(a)...);
    return std::make_unique<B<double>>(p.s(), std::forward<A>(a)...);
}

inline std::unique_ptr<pooya::Block> make_block(const Node& n, pooya::Submodel* parent)
{
    using namespace pooya;
    const std::string& nm = n.name;
    const int fn = n.fn, size = n.size;
    const Ty ty = n.ty;
    switch (n.k)
    {
    case KConst: return make_t<ConstT>(ty, n.p, parent, nm);
    case KSource:
        switch (ty)
        {
        case TI: return std::make_unique<SourceT<int>>([=](double t) { return int(src_val(fn, t, TI, 1).s()); }, parent, nm);
        case TB: return std::make_unique<SourceT<bool>>([=](double t) { return src_val(fn, t, TB, 1).s() != 0; }, parent, nm);
        case TA: return std::make_unique<SourceA>([=](double t) -> Array { return to_array(src_val(fn, t, TA, size)); }, parent, nm);
        default: return std::make_unique<Source>([=](double t) { return src_fn(fn, t); }, parent, nm);
        }
    case KGain:
        if (ty == TI) return std::make_unique<GainI>(int(n.d), parent, nm);
        if (ty == TA) return std::make_unique<GainA>(n.d, parent, nm);
        return std::make_unique<Gain>(n.d, parent, nm);
    case KPipe:
        if (ty == TB) return std::make_unique<PipeB>(parent, nm);
        return make_sai<PipeT>(ty, parent, nm);
    case KAdd: return make_psai<AddT>(ty, n.p, parent, nm);
    case KMul: return make_psai<MultiplyT>(ty, n.p, parent, nm);
    case KSub: return make_sai<SubtractT>(ty, parent, nm);
    case KDiv: return make_sai<DivideT>(ty, parent, nm);
    case KSiso:
        if (ty == TA)
            return std::make_unique<SISOFunctionA>(
                [=](double t, const Array& x) -> Array
                {
                    Array r(x.size());
                    for (int i = 0; i < x.size(); i++) r[i] = siso_fn(fn, t, x[i], i);
                    return r;
                },
                parent, nm);
        return std::make_unique<SISOFunction>([=](double t, double x) { return siso_fn(fn, t, x); }, parent, nm);
    case KSo:
    {
        auto f = [=](double t, const Bus& ib)
        {
            std::vector<Val> in;
            for (const auto& p : ib) in.push_back(read(p.second));
            return so_val(fn, t, in, ty, size);
        };
        if (ty == TA) return std::make_unique<SOFunctionA>([f](double t, const Bus& ib) -> Array { return to_array(f(t, ib)); }, parent, nm);
        return std::make_unique<SOFunction>([f](double t, const Bus& ib) { return f(t, ib).s(); }, parent, nm);
    }
    case KFunc:
        return std::make_unique<Function>(
            [=](double t, const Bus& ib, const Bus& ob)
            {
                std::vector<Val> in;
                for (const auto& p : ib) in.push_back(read(p.second));
                int o = 0;
                for (const auto& p : ob)
                {
                    auto* pa = dynamic_cast<ArraySignalImpl*>(&p.second.impl());
                    Ty oty   = pa ? TA : dynamic_cast<IntSignalImpl*>(&p.second.impl()) ? TI : dynamic_cast<BoolSignalImpl*>(&p.second.impl()) ? TB : TS;
                    write(p.second, so_val(fn + o++, t, in, oty, pa ? int(pa->size()) : 1));
                }
            },
            parent, nm);
    case KSources:
        return std::make_unique<Sources>(
            [=](const Bus& ob, double t)
            {
                int o = 0;
                for (const auto& p : ob)
                {
                    auto* pa = dynamic_cast<ArraySignalImpl*>(&p.second.impl());
                    Ty oty   = pa ? TA : dynamic_cast<IntSignalImpl*>(&p.second.impl()) ? TI : dynamic_cast<BoolSignalImpl*>(&p.second.impl()) ? TB : TS;
                    write(p.second, src_val(fn + o++, t, oty, pa ? int(pa->size()) : 1));
                }
            },
            parent, nm);
    case KMem: return make_t<MemoryT>(ty, n.p, parent, nm);
    case KDelay:
        if (ty == TA) return std::make_unique<DelayA>(n.d, parent, nm);
        return std::make_unique<Delay>(n.d, parent, nm);
    case KDeriv: return make_psa<DerivativeT>(ty, n.p, parent, nm);
    case KInit:
        if (ty == TA) return std::make_unique<InitialValueA>(parent, nm);
        return std::make_unique<InitialValue>(parent, nm);
    case KInteg: return make_psa<IntegratorT>(ty, n.p, parent, nm);
    case KTrig: return make_psa<TriggeredIntegratorT>(ty, n.p, parent, nm);
    default: break;
    }
    MC_FAIL("harness: kind");
}
inline pooya::Bus ibus_of(const Node& n, const std::vector<pooya::Signal>& sig)
{
    if (n.k == KDelay) return make_lbus({{"in", sig[n.in[0]]}, {"delay", sig[n.in[1]]}, {"initial", sig[n.in[2]]}});
    if (n.k == KTrig) return make_lbus({{"in", sig[n.in[0]]}, {"trigger", sig[n.in[1]]}});
    std::vector<pooya::Signal> v;
    for (int s : n.in) v.push_back(sig[s]);
    return make_bus(v);
}
inline pooya::Bus obus_of(const Node& n, const std::vector<pooya::Signal>& sig)
{
    std::vector<pooya::Signal> v;
    for (int s : n.out) v.push_back(sig[s]);
    return make_bus(v);
}
inline std::unique_ptr<Built> build(const Diagram& d, const BuildOpt& opt = {})
{
    auto b = std::make_unique<Built>();
    b->d   = &d;
    for (std::size_t i = 0; i < d.sigs.size(); i++)
        b->sig.push_back(make_signal(d.sigs[i].ty, d.sigs[i].size, opt.named ? "x" + std::to_string(i) : ""));
    for (std::size_t i = 0; i < d.sub_parent.size(); i++)
    {
        pooya::Submodel* par = d.sub_parent[i] < 0 || opt.subs == 1 ? nullptr : b->subs[d.sub_parent[i]].get();
        b->subs.push_back(std::make_unique<HookSubmodel>(par, i ? "sub" + std::to_string(i) : "model"));
    }
    b->blocks.resize(d.nodes.size());
    std::vector<int> order = opt.order;
    if (order.empty())
    {
        const int n = int(d.nodes.size()), how = mc::spread(4);
        for (int i = 0; i < n; i++) order.push_back(how == 1 ? n - 1 - i : how == 2 ? (i + n / 2) % n : i);
        if (how == 3) std::stable_partition(order.begin(), order.end(), [](int i) { return i % 2 == 1; });
    }
    const int style = opt.style >= 0 ? opt.style : mc::spread(15) / 4 % 3;
    for (int i : order)
    {
        const Node& n = d.nodes[i];
        auto& par     = *b->subs[n.parent];
        b->blocks[i]  = make_block(n, style == 1 ? nullptr : &par);
        if (style == 1)
            par.add_block(*b->blocks[i], ibus_of(n, b->sig), obus_of(n, b->sig));
        else if (style == 0)
            b->blocks[i]->connect(ibus_of(n, b->sig), obus_of(n, b->sig));
    }
    if (style == 2)
        for (auto it = order.rbegin(); it != order.rend(); ++it)
            b->blocks[*it]->connect(ibus_of(d.nodes[*it], b->sig), obus_of(d.nodes[*it], b->sig));
    if (opt.subs == 1)
        for (std::size_t i = d.sub_parent.size(); i-- > 1;) b->subs[d.sub_parent[i]]->add_block(*b->subs[i]);
    return b;
}

// ---- engines -----------------------------------------------------------------------------------------------
enum EngineKind
{
    ESim,
    EReuse,
    EFast
};
inline const char* engine_name(int e)
{
    static const char* n[] = {"Simulator", "Simulator(reuse_order)", "FastSimulator"};
    return n[e];
}
inline std::unique_ptr<pooya::SimulatorBase> make_engine(int e, pooya::Block& m, pooya::SimulatorBase::InputCallback cb, pooya::StepperBase* st)
{
    if (e == EFast) return std::make_unique<pooya::FastSimulator>(m, cb, st);
    return std::make_unique<pooya::Simulator>(m, cb, st, e == EReuse);
}
enum StepperKind
{
    SEuler,
    SRk4,
    SRkf45
};
inline const char* stepper_name(int s)
{
    static const char* n[] = {"Euler", "Rk4", "Rkf45"};
    return n[s];
}
inline std::shared_ptr<pooya::StepperBase> make_stepper(int s)
{
    if (s == SEuler) return std::make_shared<pooya::Euler>();
    if (s == SRk4) return std::make_shared<pooya::Rk4>();
    return std::make_shared<pooya::Rkf45>();
}

// ---- reference integration methods (textbook tableaus) ------------------------------------------------------
using Vec   = std::vector<double>;
using DerivF = std::function<Vec(double, const Vec&)>;
struct RefStep
{
    Vec v1;
    double new_h;
    bool tie{false}; // the recommended step is too close to a threshold to be decided: new_h or alt_h
    double alt_h{0};
};
inline RefStep ref_rk(const std::vector<Vec>& a, const Vec& c, const Vec& b, const Vec& bz, const DerivF& f, double t0, const Vec& v0, double t1)
{
    const double h = t1 - t0;
    std::vector<Vec> k;
    for (std::size_t s = 0; s < c.size(); s++)
    {
        Vec v = v0;
        for (std::size_t j = 0; j < s; j++)
            for (std::size_t i = 0; i < v.size(); i++) v[i] += h * a[s][j] * k[j][i];
        k.push_back(f(t0 + c[s] * h, v));
    }
    RefStep r;
    r.v1    = v0;
    Vec z   = v0;
    double e = 0, mag = 0;
    for (std::size_t i = 0; i < v0.size(); i++)
    {
        for (std::size_t s = 0; s < c.size(); s++)
        {
            r.v1[i] += h * b[s] * k[s][i];
            if (!bz.empty()) z[i] += h * bz[s] * k[s][i];
        }
        e = std::max(e, std::fabs(r.v1[i] - z[i]));
        mag = std::max(mag, std::fabs(z[i]));
    }
    r.new_h = h;
    if (!bz.empty())
    {
        // the error estimate against the tolerance of 0.001 per unit of time
        if (e <= 1e-13 * (1 + mag) * 4)
        {
            // zero up to rounding: "no change" when it is exactly zero, twice the step otherwise
            r.tie   = true;
            r.new_h = h;
            r.alt_h = 2 * h;
        }
        else
        {
            double s = std::pow(0.001 * h / (2 * e), 0.25);
            if (std::fabs(s - 0.75) < 1e-7 || std::fabs(s - 1.5) < 1e-7) r.tie = true;
            r.new_h = s < 0.75 ? h / 2 : s > 1.5 ? 2 * h : h;
        }
    }
    return r;
}
inline RefStep ref_step(int stepper, const DerivF& f, double t0, const Vec& v0, double t1)
{
    if (stepper == SEuler) return ref_rk({{}}, {0}, {1}, {}, f, t0, v0, t1);
    if (stepper == SRk4)
        return ref_rk({{}, {0.5}, {0, 0.5}, {0, 0, 1}}, {0, 0.5, 0.5, 1}, {1. / 6, 1. / 3, 1. / 3, 1. / 6}, {}, f, t0, v0, t1);
    return ref_rk({{},
                   {1. / 4},
                   {3. / 32, 9. / 32},
                   {1932. / 2197, -7200. / 2197, 7296. / 2197},
                   {439. / 216, -8, 3680. / 513, -845. / 4104},
                   {-8. / 27, 2, -3544. / 2565, 1859. / 4104, -11. / 40}},
                  {0, 1. / 4, 3. / 8, 12. / 13, 1, 1. / 2}, {25. / 216, 0, 1408. / 2565, 2197. / 4104, -1. / 5, 0},
                  {16. / 135, 0, 6656. / 12825, 28561. / 56430, -9. / 50, 2. / 55}, f, t0, v0, t1);
}

// ---- reference simulator -----------------------------------------------------------------------------------
struct RefSim
{
    struct NodeState
    {
        Val mem, x, y;
        bool first{true}, latched{false}, triggered{false};
        double t{0};
        std::vector<double> rt;
        std::vector<Val> rx;
    };
    const Diagram& d;
    int stepper;
    std::vector<NodeState> st;
    std::vector<Val> val;
    std::vector<char> asg;
    std::vector<int> state_nodes;
    std::vector<char> used;
    double tprev{0};
    bool inited{false};
    std::vector<double> accepted;
    uint64_t evaluations{0};
    // overrides for scripted steppers: (t0, v0, t1) -> step
    std::function<RefStep(const DerivF&, double, const Vec&, double)> step_fn;
    std::function<void(double)> on_clear; // (t) before inputs are set; used by harnesses with extra inputs

    RefSim(const Diagram& dd, int s) : d(dd), stepper(s), st(dd.nodes.size()), val(dd.sigs.size()), asg(dd.sigs.size())
    {
        for (std::size_t i = 0; i < d.sigs.size(); i++) used.push_back(d.used(int(i)));
        for (std::size_t i = 0; i < d.nodes.size(); i++)
        {
            auto& n   = d.nodes[i];
            st[i].mem = st[i].y = n.p;
            if (n.k == KInteg || n.k == KTrig) state_nodes.push_back(int(i));
        }
    }
    void clear() { std::fill(asg.begin(), asg.end(), 0); }
    void set(int s, Val v)
    {
        val[s] = std::move(v);
        asg[s] = 1;
    }
    void inputs(double t)
    {
        for (std::size_t i = 0; i < d.sigs.size(); i++)
            if (d.sigs[i].input >= 0 && used[i])
            {
                Val v;
                if (d.input_value(int(i), t, v)) set(int(i), v);
            }
    }
    void pre_step()
    {
        for (int i : state_nodes)
        {
            auto& n = d.nodes[i];
            if (st[i].triggered)
            {
                st[i].mem       = zero(n.ty, n.size);
                st[i].triggered = false;
            }
            set(n.out[0], st[i].mem);
        }
    }
    Vec get_states() const
    {
        Vec v;
        for (int i : state_nodes)
            for (double x : val[d.nodes[i].out[0]].v) v.push_back(x);
        return v;
    }
    void set_states(const Vec& v)
    {
        std::size_t k = 0;
        for (int i : state_nodes)
        {
            Val x = zero(d.nodes[i].ty, d.nodes[i].size);
            for (auto& e : x.v) e = v[k++];
            set(d.nodes[i].out[0], x);
        }
    }
    template<typename F>
    Val map2(const Val& a, const Val& b, F f)
    {
        Val r = a;
        for (std::size_t i = 0; i < r.v.size(); i++)
        {
            r.v[i] = f(a.v[i], b.v[i]);
            if (a.ty == TI) r.v[i] = double(int(r.v[i]));
        }
        return r;
    }
    bool ready(int i) const
    {
        auto& n = d.nodes[i];
        if (n.k == KMem) return true;
        if (n.k == KInit && st[i].latched) return true;
        if (n.k == KInteg || n.k == KTrig) return false;
        for (int s : n.in)
            if (!asg[s]) return false;
        return true;
    }
    void fire(int i, double t)
    {
        auto& n = d.nodes[i];
        auto& s = st[i];
        auto in = [&](int k) -> const Val& { return val[n.in[k]]; };
        Val r;
        switch (n.k)
        {
        case KConst: r = n.p; break;
        case KSource: r = src_val(n.fn, t, n.ty, n.size); break;
        case KGain:
            r = in(0);
            for (auto& x : r.v) x *= n.d;
            break;
        case KPipe: r = in(0); break;
        case KAdd:
            r = n.p;
            for (std::size_t k = 0; k < n.in.size(); k++) r = map2(r, in(int(k)), [](double a, double b) { return a + b; });
            break;
        case KMul:
            r = n.p;
            for (std::size_t k = 0; k < n.in.size(); k++) r = map2(r, in(int(k)), [](double a, double b) { return a * b; });
            break;
        case KSub: r = map2(in(0), in(1), [](double a, double b) { return a - b; }); break;
        case KDiv: r = map2(in(0), in(1), [](double a, double b) { return a / b; }); break;
        case KSiso:
            r = in(0);
            for (std::size_t k = 0; k < r.v.size(); k++) r.v[k] = siso_fn(n.fn, t, r.v[k], int(k));
            break;
        case KSo:
        case KFunc:
        {
            std::vector<Val> v;
            for (std::size_t k = 0; k < n.in.size(); k++) v.push_back(in(int(k)));
            for (std::size_t o = 0; o < n.out.size(); o++)
                set(n.out[o], so_val(n.fn + int(o), t, v, d.sigs[n.out[o]].ty, d.sigs[n.out[o]].size));
            return;
        }
        case KSources:
            for (std::size_t o = 0; o < n.out.size(); o++)
                set(n.out[o], src_val(n.fn + int(o), t, d.sigs[n.out[o]].ty, d.sigs[n.out[o]].size));
            return;
        case KMem: r = s.mem; break;
        case KDelay:
        {
            // all samples of the past, the initial value before them
            double q = t - in(1).s();
            if (s.rt.empty() || q <= s.rt[0])
                r = in(2);
            else if (q >= s.rt.back())
                r = s.rx.back();
            else
            {
                std::size_t k = 0;
                while (s.rt[k] < q) k++;
                double w = (q - s.rt[k - 1]) / (s.rt[k] - s.rt[k - 1]);
                r        = map2(s.rx[k - 1], s.rx[k], [w](double a, double b) { return a + (b - a) * w; });
            }
            break;
        }
        case KDeriv:
            if (s.first || s.t == t)
                r = s.y;
            else
            {
                double h = t - s.t;
                r        = map2(in(0), s.x, [h](double a, double b) { return (a - b) / h; });
            }
            break;
        case KInit:
            if (!s.latched)
            {
                s.latched = true;
                s.x       = in(0);
            }
            r = s.x;
            break;
        default: MC_FAIL("harness: fire");
        }
        set(n.out[0], r);
    }
    // returns the nodes that could not be evaluated
    std::vector<int> evaluate(double t)
    {
        evaluations++;
        std::vector<char> done(d.nodes.size(), 0);
        for (bool any = true; any;)
        {
            any = false;
            for (std::size_t i = 0; i < d.nodes.size(); i++)
            {
                if (done[i]) continue;
                if (d.nodes[i].k == KInteg || d.nodes[i].k == KTrig)
                {
                    done[i] = 1;
                    continue;
                }
                if (!ready(int(i))) continue;
                fire(int(i), t);
                done[i] = 1;
                any     = true;
            }
        }
        std::vector<int> left;
        for (std::size_t i = 0; i < d.nodes.size(); i++)
            if (!done[i]) left.push_back(int(i));
        return left;
    }
    void post_step(double t)
    {
        for (std::size_t i = 0; i < d.nodes.size(); i++)
        {
            auto& n = d.nodes[i];
            auto& s = st[i];
            switch (n.k)
            {
            case KMem: s.mem = val[n.in[0]]; break;
            case KDelay:
                if (!s.rt.empty() && s.rt.back() == t)
                    s.rx.back() = val[n.in[0]];
                else
                {
                    s.rt.push_back(t);
                    s.rx.push_back(val[n.in[0]]);
                }
                break;
            case KDeriv:
                s.t     = t;
                s.x     = val[n.in[0]];
                s.y     = val[n.out[0]];
                s.first = false;
                break;
            case KTrig:
                if (val[n.in[1]].s() != 0) s.triggered = true;
                [[fallthrough]];
            case KInteg: s.mem = val[n.out[0]]; break;
            default: break;
            }
        }
        accepted.push_back(t);
    }
    void begin(double t)
    {
        clear();
        if (on_clear) on_clear(t);
        inputs(t);
        pre_step();
    }
    void eval_at(double t, const Vec& v)
    {
        clear();
        set_states(v);
        inputs(t);
        auto left = evaluate(t);
        if (!left.empty()) throw mc::Discard{};
    }
    std::vector<int> init(double t0)
    {
        inited = true;
        tprev  = t0;
        begin(t0);
        auto left = evaluate(t0);
        if (left.empty()) post_step(t0);
        return left;
    }
    Vec deriv(double t, const Vec& v)
    {
        eval_at(t, v);
        Vec r;
        for (int i : state_nodes)
            for (double x : val[d.nodes[i].in[0]].v) r.push_back(x);
        return r;
    }
    void run(double t, double hmin = 1e-3, double hmax = 1)
    {
        if (!inited)
        {
            init(t);
            return;
        }
        Vec v;
        if (!state_nodes.empty())
        {
            if (t < tprev) MC_FAIL("harness: backward run");
            if (t == tprev)
            {
                begin(t);
                v = get_states();
            }
            double t1 = tprev, h = hmax;
            bool force = false;
            while (t1 < t)
            {
                double t2 = std::min(t1 + h, t);
                begin(t1);
                Vec v0 = get_states();
                DerivF f = [this](double tt, const Vec& vv) { return deriv(tt, vv); };
                RefStep r = step_fn ? step_fn(f, t1, v0, t2) : ref_step(stepper, f, t1, v0, t2);
                double hh = t2 - t1;
                for (double x : r.v1)
                    if (!(std::fabs(x) < 1e7)) throw mc::Discard{}; // the solution blows up: rounding decides
                if (r.tie)
                {
                    // harmless only when both answers lead to the same next step
                    auto next = [&](double nh) { return std::min(t2 + std::max(hmin, std::min(nh, hmax)), t); };
                    if (!(r.new_h >= hh && r.alt_h >= hh && next(r.new_h) == next(r.alt_h))) throw mc::Discard{};
                }
                h = std::max(hmin, std::min(r.new_h, hmax));
                if (force || r.new_h >= hh || hh <= hmin)
                {
                    force = false;
                    t1    = t2;
                    v     = r.v1;
                    if (t1 < t)
                    {
                        eval_at(t1, v);
                        post_step(t1);
                    }
                }
                else
                    force = r.new_h <= hmin;
            }
            eval_at(t, v);
        }
        else
        {
            begin(t);
            if (!evaluate(t).empty()) throw mc::Discard{};
        }
        post_step(t);
        tprev = t;
    }
};

// compares every signal of the built model with the reference
inline void compare(const Built& b, const RefSim& r, const std::string& what, double tol = 1e-9)
{
    for (std::size_t i = 0; i < b.sig.size(); i++)
    {
        bool a = assigned(b.sig[i]);
        if (a != bool(r.asg[i]))
            MC_FAIL(what << ": signal x" << i << " is " << (a ? "assigned" : "not assigned") << ", expected the opposite; model: " << b.d->text());
        if (!a) continue;
        Val v = read(b.sig[i]);
        for (double x : r.val[i].v) mc::ex.observe(x);
        if (!close(v, r.val[i], tol))
            MC_FAIL(what << ": signal x" << i << " is " << v << ", expected " << r.val[i] << "; model: " << b.d->text());
    }
}
} // namespace ref
