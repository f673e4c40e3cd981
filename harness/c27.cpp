// C27: signals live as long as anything refers to them.
#include "drive.hpp"
using namespace ref;

static Val value_at(Ty ty, int size, int id, double t) { return src_val(id, t, ty, size); }
static pooya::Signal fresh(Ty ty, int size, const std::string& name = "") { return make_signal(ty, size, name); }
// overwrites memory that was given back
static void churn()
{
    std::vector<pooya::Signal> v;
    for (int i = 0; i < 6; i++)
    {
        v.push_back(fresh(i % 2 ? TA : TS, 3, "other"));
        write(v.back(), Val(i % 2 ? TA : TS, std::vector<double>(i % 2 ? 3 : 1, -99.0 - i)));
    }
}
static std::unique_ptr<pooya::Block> pipe(Ty ty, pooya::Submodel* p)
{
    if (ty == TB) return std::make_unique<pooya::PipeB>(p);
    return make_sai<pooya::PipeT>(ty, p);
}

// holders of the same signals, given up in every order; what is left has to work
static void orders()
{
    Ty ty    = pick({TS, TI, TB, TA});
    int size = ty == TA ? 3 : 1;
    int eng  = choose(3);
    auto order = mc::permutation(mc::ex.thorough ? 7 : 6);
    if (!mc::ex.thorough) order.push_back(6);
    struct All
    {
        std::optional<pooya::Signal> in, out;      // 0 1: plain handles
        std::optional<pooya::Bus> bus, nested;     // 2 3
        std::optional<pooya::History> hist;        // 4
        std::unique_ptr<pooya::Submodel> model;    // 5 with its blocks and the simulator
        std::vector<std::unique_ptr<pooya::Block>> blocks;
        std::unique_ptr<pooya::SimulatorBase> sim;
        std::optional<pooya::Signal> found;        // 6: the result of a look-up
    } a;
    a.in.emplace(fresh(ty, size, "in"));
    a.out.emplace(fresh(ty, size, "out"));
    a.bus.emplace(pooya::Bus({{"i", *a.in}, {"o", *a.out}}));
    a.nested.emplace(pooya::Bus({{"b", pooya::Signal(*a.bus)}}));
    a.found.emplace(a.nested->at("b.o"));
    a.hist.emplace(2);
    a.hist->track(*a.in);
    a.hist->track(*a.out);
    a.model = std::make_unique<pooya::Submodel>(nullptr, "model");
    a.blocks.push_back(pipe(ty, a.model.get()));
    {
        auto between = fresh(ty, size);
        a.blocks[0]->connect({*a.in}, {between});
        a.blocks.push_back(make_t<pooya::MemoryT>(ty, zero(ty, size), a.model.get()));
        a.blocks[1]->connect({between}, {*a.out});
    }
    auto* first = a.blocks[0].get();
    a.sim = make_engine(eng, *a.model, [&, first](pooya::Block&, double t) { write(first->ibus().at(std::size_t(0)), value_at(ty, size, 1, t)); }, nullptr);
    double t = 0;
    a.sim->init(t);
    unsigned row = 0;
    std::vector<double> times;
    Val before = zero(ty, size);
    std::string txt = "holders given up in the order";
    auto use = [&]
    {
        Val now = value_at(ty, size, 1, t), shown = before;
        if (a.sim)
        {
            before = now; // the memory shows it after the next step
            t += 0.5;
            now = value_at(ty, size, 1, t);
            shown = before;
            a.sim->run(t);
        }
        auto same = [&](const pooya::Signal& s, const Val& v, const char* who)
        {
            Val x = read(s);
            for (double y : x.v) mc::ex.observe(y);
            MC_CHECK(close(x, v), txt << ": through the " << who << " the value is " << x << ", expected " << v);
        };
        if (a.in) same(*a.in, now, "input's handle");
        if (a.out) same(*a.out, shown, "output's handle");
        if (a.found) same(*a.found, shown, "signal looked up");
        if (a.bus)
        {
            same(a.bus->at("i"), now, "bus");
            same(a.bus->at(std::size_t(1)), shown, "bus");
            MC_CHECK(a.bus->size() == 2, txt << ": size of the bus");
        }
        if (a.nested)
        {
            same(a.nested->at("b.i"), now, "nested bus");
            same(a.nested->at("b.o"), shown, "nested bus");
        }
        if (a.hist)
        {
            a.hist->update(row++, t);
            times.push_back(t);
            MC_CHECK(a.hist->size() == 2 && a.hist->nrows() == row, txt << ": the history has " << a.hist->size() << " signals and " << a.hist->nrows() << " rows");
            int hits = 0;
            for (auto& p : *a.hist)
            {
                bool is_in = p.first->name().str() == "in";
                hits += is_in ? 1 : 10;
                auto& v = is_in ? now : shown;
                for (int j = 0; j < int(v.v.size()); j++) MC_CHECK(p.second(int(row) - 1, j) == v.v[j], txt << ": recorded value");
            }
            MC_CHECK(hits == 11, txt << ": names in the history");
        }
        if (a.sim)
        {
            same(first->ibus().at(std::size_t(0)), now, "block's input bus");
            same(a.blocks[1]->obus().at(std::size_t(0)), shown, "block's output bus");
            for (auto& b : a.blocks) MC_CHECK(b->linked_signals().size() == 2, txt << ": linked signals");
        }
    };
    use();
    for (int o : order)
    {
        txt += " " + std::to_string(o);
        switch (o)
        {
        case 0: a.in.reset(); break;
        case 1: a.out.reset(); break;
        case 2: a.bus.reset(); break;
        case 3: a.nested.reset(); break;
        case 4: a.hist.reset(); break;
        case 5:
            a.sim.reset();
            a.model.reset();
            a.blocks.clear();
            break;
        default: a.found.reset();
        }
        churn();
        use();
    }
    MC_LOG(txt);
}
// any model of the library, built from signals nobody else keeps: only what is connected refers to them
static void anonymous()
{
    Ty ty    = choose(2) ? TA : TS;
    int size = ty == TA ? 3 : 1;
    int k    = choose(KNumKinds);
    int eng  = choose(3), stp = choose(3);
    int when = choose(3); // the handles go before the connection of the others, before the initialisation, after it
    Diagram d;
    int e = d.input(1, ty, size), s = d.sig(ty, size);
    int a;
    switch (k)
    {
    case KConst:
    case KSource: a = d.add(Kind(k), {}, Val(ty, std::vector<double>(size, 1.5)), 0, 1, ty, size); break;
    case KDelay: a = d.add(KDelay, {e, d.add(KConst, {}, Val(0.375)), s}, Val(), 2, 0, ty, size); break;
    case KTrig: a = d.add(KTrig, {e, d.add(KSource, {}, Val(), 0, 1, TB)}, Val(ty, std::vector<double>(size, 0.5)), 0, 0, ty, size); break;
    case KSub:
    case KDiv:
    case KAdd:
    case KMul:
    case KSo:
    case KFunc: a = d.add(Kind(k), {s, e}, Val(ty, std::vector<double>(size, 2)), 0, 1, ty, size); break;
    case KSources:
    {
        Node n;
        n.k   = KSources;
        n.out = {a = d.sig(ty, size), d.sig(TI)};
        n.fn  = 1;
        d.nodes.push_back(n);
        break;
    }
    default: a = d.add(Kind(k), {e}, Val(ty, std::vector<double>(size, 0.75)), 1.25, 1, ty, size);
    }
    int g = d.add(KGain, {a}, Val(), -0.25, 0, ty, size);
    d.add(KInteg, {g}, Val(ty, std::vector<double>(size, 0.25)), 0, 0, ty, size, s);
    d.add(KMem, {s}, Val(ty, std::vector<double>(size, 7)), 0, 0, ty, size);
    Plan p{0, {0.5, 1.25, 2}, 0.125, 0.5, true};
    if (!steps_determined(d, stp, p)) throw mc::Discard{};
    // a twin that keeps its handles
    auto keep = build(d);
    auto st1 = make_stepper(stp), st2 = make_stepper(stp);
    auto sim1 = make_engine(eng, keep->model(), keep->inputs(0), st1.get());
    sim1->init(0);
    for (double t : p.runs) sim1->run(t, p.hmin, p.hmax);
    // the same without: the signals are reached through the blocks
    Built b;
    b.d = &d;
    for (std::size_t i = 0; i < d.sigs.size(); i++) b.sig.push_back(fresh(d.sigs[i].ty, d.sigs[i].size, "x" + std::to_string(i)));
    pooya::Submodel model(nullptr, "model");
    std::vector<std::unique_ptr<pooya::Block>> blocks;
    for (std::size_t i = 0; i < d.nodes.size(); i++)
    {
        auto& n = d.nodes[i];
        blocks.push_back(make_block(n, &model));
        blocks.back()->connect(ibus_of(n, b.sig), obus_of(n, b.sig));
        if (when == 0) // give up every signal no later block is connected to
            for (std::size_t j = 0; j < b.sig.size(); j++)
            {
                bool later = false;
                for (std::size_t l = i + 1; l < d.nodes.size(); l++)
                    for (auto* v : {&d.nodes[l].in, &d.nodes[l].out}) later = later || std::find(v->begin(), v->end(), int(j)) != v->end();
                if (!later)
                {
                    b.sig[j].~Signal();
                    new (&b.sig[j]) pooya::Signal(pooya::ScalarSignal("gone"));
                }
            }
        if (when == 0) churn();
    }
    // where to find signal i
    auto locate = [&](int i) -> pooya::Signal
    {
        for (std::size_t l = 0; l < d.nodes.size(); l++)
        {
            for (std::size_t q = 0; q < d.nodes[l].in.size(); q++)
                if (d.nodes[l].in[q] == i) return blocks[l]->ibus().at(q);
            for (std::size_t q = 0; q < d.nodes[l].out.size(); q++)
                if (d.nodes[l].out[q] == i) return blocks[l]->obus().at(q);
        }
        MC_FAIL("harness: signal of no block");
    };
    if (when <= 1) b.sig.clear();
    churn();
    auto sim2 = make_engine(eng, model, [&](pooya::Block&, double t)
        {
            if (d.used(e)) write(locate(e), src_val(1, t, ty, size));
        }, st2.get());
    sim2->init(0);
    b.sig.clear();
    churn();
    std::string txt = std::string(engine_name(eng)) + "/" + stepper_name(stp) + ", handles given up at " + std::to_string(when) + "; " + d.text();
    MC_LOG(txt);
    for (double t : p.runs)
    {
        sim2->run(t, p.hmin, p.hmax);
        churn();
    }
    for (std::size_t i = 0; i < d.sigs.size(); i++)
    {
        if (int(i) == e && !d.used(e)) continue;
        pooya::Signal x = locate(int(i));
        MC_CHECK(x->name().str() == "x" + std::to_string(i), txt << ": x" << i << " is called " << x->name().str());
        Val v1 = read(keep->sig[i]), v2 = read(x);
        for (double y : v1.v) mc::ex.observe(y);
        MC_CHECK(close(v1, v2, 1e-12), txt << ": x" << i << " is " << v2 << " without handles, " << v1 << " with them");
    }
}
// handles re-pointed, copied, assigned: every sequence of operations on three handles and the signals behind them
template<typename S>
static void repointed(Ty ty, int size)
{
    const int n = mc::ex.thorough ? 6 : 4;
    std::vector<std::unique_ptr<S>> h(3);
    auto mk = [&](const std::string& nm) { return std::make_unique<S>(fresh(ty, size, nm)); };
    struct Model
    {
        std::string name;
        bool asg{false};
        double v{0};
    };
    std::vector<std::shared_ptr<Model>> m(3);
    for (int i = 0; i < 3; i++)
    {
        h[i] = mk("s" + std::to_string(i));
        m[i] = std::make_shared<Model>();
        m[i]->name = "s" + std::to_string(i);
    }
    std::optional<pooya::Bus> bus;
    std::vector<std::shared_ptr<Model>> in_bus;
    std::string txt;
    int made = 3;
    for (int i = 0; i < n; i++)
    {
        int op = choose(8);
        int a = op == 7 ? 0 : choose(3);
        switch (op)
        {
        case 0: // to another one's signal
        {
            int b = (a + 1) % 3;
            h[a]->reset(*h[b]);
            m[a] = m[b];
            break;
        }
        case 1: // a handle made anew
            h[a] = mk("s" + std::to_string(made));
            m[a] = std::make_shared<Model>();
            m[a]->name = "s" + std::to_string(made++);
            break;
        case 2: // a copy, the original goes
        {
            auto c = std::make_unique<S>(*h[a]);
            h[a].reset();
            churn();
            h[a] = std::move(c);
            break;
        }
        case 3: // from the bare signal
        {
            pooya::Signal s(h[a]->impl());
            h[a].reset();
            h[a] = std::make_unique<S>(s);
            break;
        }
        case 4: // to itself
            h[a]->reset(*h[a]);
            break;
        case 5: // into a bus
            bus.emplace(pooya::Bus({{"a", pooya::Signal(*h[a])}, {"b", pooya::Signal(*h[(a + 2) % 3])}}));
            in_bus = {m[a], m[(a + 2) % 3]};
            break;
        case 6: // assign or clear
            if (m[a]->asg)
            {
                (*h[a])->clear();
                m[a]->asg = false;
            }
            else
            {
                m[a]->v   = i % 2;
                m[a]->asg = true;
                write(*h[a], Val(ty, std::vector<double>(size, i % 2)));
            }
            break;
        default: // out of a bus, which goes
            if (!bus) throw mc::Discard{};
            h[0]->reset(bus->at("b"));
            m[0] = in_bus[1];
            bus.reset();
            in_bus.clear();
        }
        txt += " " + std::to_string(op) + "." + std::to_string(a);
        churn();
        auto same = [&](const pooya::Signal& s, const Model& x)
        {
            MC_CHECK(s->name().str() == x.name, "after" << txt << ": the handle refers to " << s->name().str() << " instead of " << x.name);
            MC_CHECK(assigned(s) == x.asg, "after" << txt << ": " << x.name << " is " << (x.asg ? "not " : "") << "assigned");
            if (x.asg) MC_CHECK(close(read(s), Val(ty, std::vector<double>(size, x.v))), "after" << txt << ": value of " << x.name);
        };
        for (int j = 0; j < 3; j++) same(*h[j], *m[j]);
        if (bus)
        {
            same(bus->at("a"), *in_bus[0]);
            same(bus->at("b"), *in_bus[1]);
        }
        for (int j = 0; j < 3; j++)
            for (int l = 0; l < 3; l++) MC_CHECK((&h[j]->impl() == &h[l]->impl()) == (m[j] == m[l]), "after" << txt << ": identity of handles " << j << " and " << l);
        mc::ex.observe(uint64_t(op * 3 + a));
    }
    MC_LOG(txt);
}
// deep nests of buses of which only the outermost, or one in the middle, is kept
static void nests()
{
    int depth = choose(8) + 1;
    int kept  = choose(depth);
    Ty ty     = pick({TS, TI, TB, TA});
    int size  = ty == TA ? 2 : 1;
    int via   = choose(3);
    std::optional<pooya::Bus> keep, in_memory;
    std::vector<std::string> paths;
    std::optional<pooya::Signal> looked_up;
    pooya::Submodel model(nullptr, "model");
    pooya::BusPipe bp(model);
    pooya::BusMemory bm(model);
    {
        std::optional<pooya::Bus> cur;
        std::string path;
        for (int i = 0; i < depth; i++)
        {
            auto s = fresh(ty, size, "s" + std::to_string(i));
            if (cur)
                cur.emplace(pooya::Bus({{"v", s}, {"in", pooya::Signal(*cur)}}));
            else
                cur.emplace(pooya::Bus({{"v", s}}));
            if (i == kept) keep.emplace(*cur);
            if (i == kept) looked_up.emplace(cur->at(path + "v"));
        }
        std::optional<pooya::Bus> out;
        for (int i = 0; i < depth; i++)
        {
            auto s = fresh(ty, size);
            if (out)
                out.emplace(pooya::Bus({{"in", pooya::Signal(*out)}, {"v", s}}));
            else
                out.emplace(pooya::Bus({{"v", s}}));
        }
        if (via == 0)
        {
            bp.connect(*cur, *out);
            keep.emplace(bp.ibus());
            kept = depth - 1;
        }
        else if (via == 1)
        {
            bm.connect(*cur, *out);
            keep.emplace(bm.ibus());
            kept = depth - 1;
        }
    }
    churn();
    std::string path;
    for (int i = kept; i >= 0; i--)
    {
        auto s = keep->at(path + "v");
        MC_CHECK(s->name().str() == "s" + std::to_string(i), "depth " << depth << ", bus " << kept << " kept: " << path << "v is " << s->name().str());
        write(s, value_at(ty, size, i, 0.5));
        path += "in.";
    }
    path.clear();
    for (int i = kept; i >= 0; i--)
    {
        MC_CHECK(close(read(keep->at(path + "v")), value_at(ty, size, i, 0.5)), "depth " << depth << ", bus " << kept << " kept: value of " << path << "v");
        mc::ex.observe(read(keep->at(path + "v")).v[0]);
        path += "in.";
    }
    if (via >= 2)
        MC_CHECK(assigned(*looked_up), "the signal looked up");
    else
    {
        // the pipes or memories made for the buses still work
        auto in = [&](pooya::Block&, double t)
        {
            std::string q;
            for (int i = depth - 1; i >= 0; i--)
            {
                auto s = keep->at(q + "v");
                write(s, value_at(ty, size, i, t));
                q += "in.";
            }
        };
        auto& blk = via == 0 ? static_cast<pooya::Block&>(bp) : bm;
        keep.emplace(blk.ibus());
        auto sim = make_engine(choose(3), model, in, nullptr);
        pooya::Bus res(blk.obus());
        sim->init(0);
        churn();
        sim->run(0.5);
        std::string q;
        for (int i = depth - 1; i >= 0; i--)
        {
            Val want = value_at(ty, size, i, via == 0 ? 0.5 : 0.0);
            MC_CHECK(close(read(res.at(q + "v")), want), "depth " << depth << ": " << q << "v behind the bus block is " << read(res.at(q + "v")) << ", expected " << want);
            q += "in.";
        }
    }
}
template<typename I>
static std::unique_ptr<I> make_sai_integrator(Ty ty, int size)
{
    if constexpr (std::is_same_v<I, pooya::IntegratorA>)
        return std::make_unique<I>(to_array(zero(ty, size)));
    else
        return std::make_unique<I>(0.0);
}
// states and their derivatives: every sequence of links between three signals, of which handles come and go
template<typename S, typename I>
static void links(Ty ty, int size)
{
    const int n = mc::ex.thorough ? 6 : 5;
    struct Model
    {
        std::string name;
        std::shared_ptr<Model> d; // its derivative
    };
    std::vector<std::shared_ptr<Model>> m(3), all;
    std::vector<std::unique_ptr<S>> h(3);
    for (int i = 0; i < 3; i++)
    {
        std::string nm = "s" + std::to_string(i);
        h[i] = std::make_unique<S>(fresh(ty, size, nm));
        m[i] = std::make_shared<Model>();
        m[i]->name = nm;
        all.push_back(m[i]);
    }
    std::unique_ptr<I> block;
    std::string txt;
    int made = 3;
    for (int i = 0; i < n; i++)
    {
        int op = choose(4);
        int a = choose(3);
        switch (op)
        {
        case 0: // another one becomes the derivative
        {
            int b = (a + 1) % 3;
            (*h[a])->set_deriv_signal(*h[b]);
            m[a]->d = m[b];
            break;
        }
        case 1: // the same through a block, which may go
        {
            int b = (a + 2) % 3;
            if (m[a] == m[b]) throw mc::Discard{};
            auto bl = make_sai_integrator<I>(ty, size);
            bl->connect({*h[b]}, {*h[a]});
            m[a]->d = m[b];
            if (i % 2) block = std::move(bl);
            break;
        }
        case 2: // the handle stands for a new signal
            h[a] = std::make_unique<S>(fresh(ty, size, "s" + std::to_string(made)));
            m[a] = std::make_shared<Model>();
            m[a]->name = "s" + std::to_string(made++);
            all.push_back(m[a]);
            break;
        default: // the handle stands for the derivative of its signal
            if (!m[a]->d) throw mc::Discard{};
            h[a] = std::make_unique<S>(pooya::Signal(*(*h[a])->deriv_signal()));
            m[a] = m[a]->d;
        }
        txt += " " + std::to_string(op) + "." + std::to_string(a);
        churn();
        for (int j = 0; j < 3; j++)
        {
            auto* s = &h[j]->impl();
            auto mm = m[j];
            for (int l = 0; l < 5; l++) // along the chain, which may be a ring
            {
                MC_CHECK(s->name().str() == mm->name, "after" << txt << ": " << mm->name << " is called " << s->name().str());
                MC_CHECK((s->deriv_signal() != nullptr) == (mm->d != nullptr) && (s->state_variable() != nullptr) == (mm->d != nullptr), "after" << txt << ": " << mm->name << (mm->d ? " has no derivative" : " has a derivative"));
                if (!mm->d) break;
                s  = s->deriv_signal();
                mm = mm->d;
            }
        }
        mc::ex.observe(uint64_t(op * 3 + a));
    }
    MC_LOG(txt);
    // do not leave rings
    for (auto& x : all) x->d.reset();
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"holders in every order", orders},
                         {"models without handles", anonymous},
                         {"scalar handles", [] { repointed<pooya::ScalarSignal>(TS, 1); }},
                         {"array handles", [] { repointed<pooya::ArraySignal>(TA, 3); }},
                         {"int handles", [] { repointed<pooya::IntSignal>(TI, 1); }},
                         {"bool handles", [] { repointed<pooya::BoolSignal>(TB, 1); }},
                         {"scalar derivatives", [] { links<pooya::ScalarSignal, pooya::Integrator>(TS, 1); }},
                         {"array derivatives", [] { links<pooya::ArraySignal, pooya::IntegratorA>(TA, 2); }},
                         {"nested buses", nests}});
}
