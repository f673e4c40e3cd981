// C14: BusMemory and BusPipe against one Memory or Pipe per signal.
#include "ref.hpp"
using namespace ref;
#if defined(NDEBUG)
static const bool debug_build = false;
#else
static const bool debug_build = true;
#endif
struct Leaf_
{
    std::string path;
    Ty ty;
    int size;
    pooya::Signal in, out;
};
// shapes: '(' ... ')' a nested bus, a letter a value signal; labels are made from the position
static const std::vector<std::string> shapes{"a", "ab", "(a)", "a(b)", "(a)b", "(ab)", "(a)(b)", "((a))", "a((b)c)", "(a(b))c", "(ab)(c)", "abc", "(a)b(c)", "a(b(c)d)", "((a)(b))c", "abcd", "((a(b))c)d", "a()b"};
static const std::vector<std::string> names{"x", "xx", "Z", "y1"};

struct Maker
{
    std::vector<Leaf_> leaves;
    int rot;
    int order; // how the output bus is ordered
    int pos{0};
    const std::string* s{nullptr};
    std::pair<pooya::Bus, pooya::Bus> bus(const std::string& path)
    {
        std::vector<Labelled> i, o;
        int k = 0;
        while (pos < int(s->size()) && (*s)[pos] != ')')
        {
            std::string label = names[(k++ + rot) % 4];
            if ((*s)[pos] == '(')
            {
                pos++;
                auto b = bus(path + label + ".");
                pos++;
                i.emplace_back(label, b.first);
                o.emplace_back(label, b.second);
            }
            else
            {
                Ty ty    = Ty((int(leaves.size()) + rot) % 4);
                int size = ty == TA ? 1 + (rot + int(leaves.size())) % 3 : 1;
                auto a   = make_signal(ty, size, "in" + std::to_string(leaves.size()));
                auto b   = make_signal(ty, size, "out" + std::to_string(leaves.size()));
                leaves.push_back({path + label, ty, size, a, b});
                i.emplace_back(label, a);
                o.emplace_back(label, b);
                pos++;
            }
        }
        if (order == 1) std::reverse(o.begin(), o.end());
        if (order == 2 && o.size() > 1) std::rotate(o.begin(), o.begin() + 1, o.end());
        if (order == 3) std::reverse(i.begin(), i.end());
        return {make_lbus(i), make_lbus(o)};
    }
};
using LV = pooya::BusMemory::LabelValue;
static pooya::BusMemory::Value value_of(const Leaf_& l, double base)
{
    if (l.ty == TI) return int(base);
    if (l.ty == TB) return true;
    if (l.ty == TA)
    {
        Array a(l.size);
        for (int k = 0; k < l.size; k++) a[k] = base + k;
        return a;
    }
    return base;
}
static Val val_of(const Leaf_& l, double base)
{
    Val v = zero(l.ty, l.size);
    for (std::size_t k = 0; k < v.v.size(); k++) v.v[k] = l.ty == TB ? 1 : l.ty == TI ? int(base) : base + double(k);
    return v;
}
static std::unique_ptr<pooya::BusMemory> memory(pooya::Submodel& m, const std::vector<LV>& v, const std::vector<std::string>& e)
{
    using pooya::BusMemory;
    auto with = [&](std::initializer_list<LV> l)
    {
        switch (e.size())
        {
        case 0: return std::make_unique<BusMemory>(m, l);
        case 1: return std::make_unique<BusMemory>(m, l, std::initializer_list<std::string>{e[0]});
        case 2: return std::make_unique<BusMemory>(m, l, std::initializer_list<std::string>{e[0], e[1]});
        default: return std::make_unique<BusMemory>(m, l, std::initializer_list<std::string>{e[0], e[1], e[2]});
        }
    };
    switch (v.size())
    {
    case 0: return with({});
    case 1: return with({v[0]});
    case 2: return with({v[0], v[1]});
    case 3: return with({v[0], v[1], v[2]});
    default: return with({v[0], v[1], v[2], v[3]});
    }
}
static std::unique_ptr<pooya::BusPipe> pipe_(pooya::Submodel& m, const std::vector<std::string>& e)
{
    using pooya::BusPipe;
    switch (e.size())
    {
    case 0: return std::make_unique<BusPipe>(m);
    case 1: return std::make_unique<BusPipe>(m, std::initializer_list<std::string>{e[0]});
    case 2: return std::make_unique<BusPipe>(m, std::initializer_list<std::string>{e[0], e[1]});
    default: return std::make_unique<BusPipe>(m, std::initializer_list<std::string>{e[0], e[1], e[2]});
    }
}
static bool excluded(const std::string& path, const std::vector<std::string>& ex)
{
    for (auto& e : ex)
    {
        if (e == path) return true;
        if (!e.empty() && e.back() == '.' && path.compare(0, e.size(), e) == 0) return true;
    }
    return false;
}
// the paths of all buses, with a dot, and of all signals
static std::vector<std::string> paths_of(const std::vector<Leaf_>& leaves)
{
    std::vector<std::string> r;
    for (auto& l : leaves)
    {
        for (std::size_t p = l.path.find('.'); p != std::string::npos; p = l.path.find('.', p + 1)) r.push_back(l.path.substr(0, p + 1));
        r.push_back(l.path);
    }
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
static Val input_val(const Leaf_& l, int i, double t)
{
    Val v = src_val(i, t, l.ty, l.size);
    if (l.ty == TS)
        for (auto& x : v.v) x += 10 * i;
    return v;
}

// inputs of the bus set from outside, a state next to it so that the stepper makes trial evaluations
static void judge(bool mem, const std::string& shape, int rot, int order, const std::vector<std::string>& ex, unsigned inits, int eng, int place, int depth)
{
    using namespace pooya;
    Submodel model(nullptr, "model");
    Submodel sub(depth ? &model : nullptr, "sub");
    Submodel& at = depth ? sub : model;
    Maker mk;
    mk.rot   = rot;
    mk.order = order;
    mk.s     = &shape;
    auto bus = mk.bus("");
    std::vector<LV> iv;
    std::vector<Val> now;
    for (std::size_t i = 0; i < mk.leaves.size(); i++)
    {
        auto& l  = mk.leaves[i];
        bool has = (inits >> i & 1) && !excluded(l.path, ex);
        if (has) iv.emplace_back(l.path, value_of(l, 3 + 2 * double(i)));
        now.push_back(has ? val_of(l, 3 + 2 * double(i)) : zero(l.ty, l.size));
    }
    MC_LOG((mem ? "memory " : "pipe ") << shape << " names from " << rot << " order " << order << " excluded " << mc::str(ex) << " initial values " << inits << " engine " << eng);
    std::unique_ptr<Block> b;
    Integrator integ(0, &model, "integ");
    ScalarSignal x("x"), dx("dx");
    SOFunction f([](double t, const Bus&) { return t; }, nullptr, "f");
    if (place == 0)
    {
        integ.connect({dx}, {x});
        model.add_block(f, {}, {dx});
    }
    if (mem)
        b = memory(at, iv, ex);
    else
        b = pipe_(at, ex);
    b->connect(bus.first, bus.second);
    // what the excluded outputs carry is somebody else's
    std::vector<std::unique_ptr<Block>> others;
    for (std::size_t i = 0; i < mk.leaves.size(); i++)
    {
        auto& l = mk.leaves[i];
        if (!excluded(l.path, ex) || i % 2) continue;
        Node n;
        n.k    = KConst;
        n.ty   = l.ty;
        n.size = l.size;
        n.p    = val_of(l, 77);
        others.push_back(make_block(n, &model));
        others.back()->connect({}, {l.out});
    }
    if (place == 1)
    {
        integ.connect({dx}, {x});
        model.add_block(f, {}, {dx});
    }
    auto in = [&](Block&, double t)
    {
        for (std::size_t i = 0; i < mk.leaves.size(); i++)
            if (!excluded(mk.leaves[i].path, ex)) write(mk.leaves[i].in, input_val(mk.leaves[i], int(i), t));
    };
    Rk4 rk;
    auto sim  = make_engine(eng, model, in, &rk);
    double t  = 0.25;
    auto look = [&](const char* what)
    {
        for (std::size_t i = 0; i < mk.leaves.size(); i++)
        {
            auto& l = mk.leaves[i];
            if (excluded(l.path, ex))
            {
                bool other = i % 2 == 0;
                MC_CHECK(assigned(l.out) == other, what << ": excluded " << l.path << (other ? " has no value" : " has a value"));
                if (other) MC_CHECK(close(read(l.out), val_of(l, 77), 0), what << ": excluded " << l.path << " is " << read(l.out));
                continue;
            }
            Val want = mem ? now[i] : input_val(l, int(i), t);
            MC_CHECK(assigned(l.out), what << " at " << t << ": " << l.path << " has no value");
            MC_CHECK(close(read(l.out), want, 0), what << " at " << t << ": " << l.path << " is " << read(l.out) << ", expected " << want);
            for (double v : want.v) mc::ex.observe(v);
            now[i] = input_val(l, int(i), t);
        }
    };
    sim->init(t);
    look("init");
    // a repeated step, a step, a run of two steps
    for (double dt : {0.5, 0.5, 0.25})
    {
        t += dt;
        sim->run(t);
        look("run");
    }
    // two steps in one call: the memory has the input of the step in between
    sim->run(t + 1, 1e-3, 0.5);
    if (mem)
        for (std::size_t i = 0; i < mk.leaves.size(); i++) now[i] = input_val(mk.leaves[i], int(i), t + 0.5);
    t += 1;
    look("two steps");
}
static void shapes_(bool mem)
{
    const std::string& shape = pick(shapes);
    int rot                  = choose(4);
    int order                = choose(4);
    unsigned inits           = mem ? choose(2) ? 15 : choose(2) ? 5 : 10 : 0;
    int eng                  = choose(3);
    int place                = choose(2);
    judge(mem, shape, rot, order, {}, inits, eng, place, 0);
}
// every pair of exclusions: signals, buses, things that look like one
static void exclusions(bool mem)
{
    const std::string& shape = shapes[choose(int(shapes.size()) - 1)];
    int rot                  = mc::ex.thorough ? choose(4) : choose(2) * 2 + 1;
    int order                = choose(2);
    Maker mk;
    mk.rot   = rot;
    mk.order = 0;
    mk.s     = &shape;
    mk.bus("");
    auto all = paths_of(mk.leaves);
    std::vector<std::string> more;
    for (auto& p : all)
    {
        // none of these is the path of a signal or of a bus with a dot
        for (auto& q : {p.back() == '.' ? p.substr(0, p.size() - 1) : p + ".", p.substr(0, p.size() - 1), "Q." + p, p.find('.') == std::string::npos ? p : p.substr(p.find('.') + 1)})
            if (!q.empty() && std::find(all.begin(), all.end(), q) == all.end() && std::find(more.begin(), more.end(), q) == more.end()) more.push_back(q);
    }
    if (!mc::ex.thorough && more.size() > 4) more.resize(4);
    all.insert(all.end(), more.begin(), more.end());
    std::vector<std::string> ex;
    int a = choose(int(all.size())), b = choose(a + 1);
    ex.push_back(all[a]);
    if (b != a) ex.push_back(all[b]);
    if (choose(2)) std::reverse(ex.begin(), ex.end());
    judge(mem, shape, rot, order, ex, 15, choose(3), 0, choose(2));
}
// initial values for paths that do not exist, or that are excluded
static void unused()
{
    const std::string& shape = pick(shapes);
    int rot                  = choose(4);
    int extra                = choose(6);
    int exc                  = choose(2);
    using namespace pooya;
    Submodel m(nullptr, "m");
    Maker mk;
    mk.rot   = rot;
    mk.order = 0;
    mk.s     = &shape;
    auto bus = mk.bus("");
    std::vector<LV> iv;
    std::vector<std::string> ex;
    bool bad = true;
    auto& l  = mk.leaves.back();
    switch (extra)
    {
    case 0: bad = false; break;
    case 1: iv.emplace_back("nothing", 1.0); break;
    case 2: iv.emplace_back(l.path + ".x", 1.0); break;
    case 3: iv.emplace_back("", 1.0); break;
    case 4: iv.emplace_back(l.path + "0", 2); break;
    default:
        bad = l.path.find('.') != std::string::npos;
        if (bad) iv.emplace_back(l.path.substr(0, l.path.find('.')), 1.0);
    }
    if (exc)
    {
        // an initial value for an excluded signal is not used either
        ex.push_back(l.path);
        iv.emplace_back(l.path, value_of(l, 1));
        bad = true;
    }
    else
        iv.emplace_back(l.path, value_of(l, 1));
    if (!bad && mk.leaves.size() > 1) iv.emplace_back(mk.leaves[0].path, value_of(mk.leaves[0], 2));
    auto b = memory(m, iv, ex);
    MC_LOG(shape << " extra " << extra << " excluded " << exc);
    if (debug_build)
        MC_CHECK(mc::throws([&] { b->connect(bus.first, bus.second); }) == bad, "initial values " << (bad ? "for paths that do not exist are accepted" : "are rejected"));
    else
        b->connect(bus.first, bus.second);
}
// the output of the bus memory feeds its input through blocks, next to one with single memories
static void feedback()
{
    const std::string& shape = shapes[choose(int(shapes.size()) - 1)];
    int rot                  = choose(4);
    int order                = choose(3);
    int eng                  = choose(3);
    int when                 = choose(3); // blocks before, around or after
    int steps                = mc::ex.thorough ? 5 : 3;
    using namespace pooya;
    std::vector<std::vector<Val>> seen[2];
    for (int way = 0; way < 2; way++)
    {
        Submodel m(nullptr, "m");
        Maker mk;
        mk.rot   = rot;
        mk.order = order;
        mk.s     = &shape;
        auto bus = mk.bus("");
        std::vector<std::unique_ptr<Block>> blocks;
        auto rest = [&](std::size_t from, std::size_t to)
        {
            for (std::size_t i = from; i < to; i++)
            {
                auto& l = mk.leaves[i];
                auto& o = mk.leaves[(i + 1) % mk.leaves.size()];
                // from the next signal if the types agree
                auto& src = o.ty == l.ty && o.size == l.size ? o : l;
                auto fn   = [&l, i](double t, const Bus& ib, const Bus& ob)
                {
                    Val v = read(ib.at(0));
                    for (std::size_t k = 0; k < v.v.size(); k++) v.v[k] = l.ty == TB ? double(v.v[k] == 0) : v.v[k] * 2 + double(i + k) + (l.ty == TI ? 1 : t);
                    write(ob.at(0), v);
                };
                blocks.push_back(std::make_unique<Function>(fn, &m, "f" + std::to_string(i)));
                blocks.back()->connect({src.out}, {l.in});
            }
        };
        std::size_t n = mk.leaves.size(), half = when == 0 ? n : when == 1 ? n / 2 : 0;
        rest(0, half);
        std::vector<LV> iv;
        for (auto& l : mk.leaves)
            if (l.path.size() % 2 && iv.size() < 4) iv.emplace_back(l.path, value_of(l, 4));
        if (way == 0)
        {
            blocks.push_back(memory(m, iv, {}));
            blocks.back()->connect(bus.first, bus.second);
        }
        else
            for (auto& l : mk.leaves)
            {
                Node nd;
                nd.k    = KMem;
                nd.ty   = l.ty;
                nd.size = l.size;
                nd.p    = std::find_if(iv.begin(), iv.end(), [&](auto& p) { return p.first == l.path; }) != iv.end() ? val_of(l, 4) : zero(l.ty, l.size);
                blocks.push_back(make_block(nd, &m));
                blocks.back()->connect({l.in}, {l.out});
            }
        rest(half, n);
        auto sim = make_engine(eng, m, nullptr, nullptr);
        for (int k = 0; k <= steps; k++)
        {
            sim->run(k * 0.5);
            std::vector<Val> row;
            for (auto& l : mk.leaves)
            {
                row.push_back(read(l.out));
                row.push_back(read(l.in));
            }
            seen[way].push_back(row);
        }
        if (way == 1)
            for (int k = 0; k <= steps; k++)
                for (std::size_t i = 0; i < seen[0][k].size(); i++)
                {
                    for (double x : seen[1][k][i].v) mc::ex.observe(x);
                    MC_CHECK(close(seen[0][k][i], seen[1][k][i], 0), "step " << k << ": " << mk.leaves[i / 2].path << (i % 2 ? " (input)" : "") << " is " << seen[0][k][i] << ", with single memories " << seen[1][k][i]);
                }
    }
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"memory", [] { shapes_(true); }},
                         {"pipe", [] { shapes_(false); }},
                         {"memory exclusions", [] { exclusions(true); }},
                         {"pipe exclusions", [] { exclusions(false); }},
                         {"initial values", unused},
                         {"feedback", feedback}});
}
