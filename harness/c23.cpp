// C23: initial-value blocks.
#include "drive.hpp"
using namespace ref;

struct Shape
{
    Ty ty;
    int size;
};
static const std::vector<Shape> shapes{{TS, 1}, {TA, 1}, {TA, 2}, {TA, 5}};
static Val letter(const Shape& sh, int k)
{
    static const double x[] = {0, -2.5, 40.25, 1e300, 5e-324, NAN, INFINITY, -INFINITY};
    Val v = zero(sh.ty, sh.size);
    for (int i = 0; i < int(v.v.size()); i++) v.v[i] = k == 0 ? -0.0 : k < 3 ? x[k] + i * 0.5 : k > 4 && i % 2 ? 3 : x[k];
    return v;
}
// what can be in front of the block
enum Front
{
    FIn,
    FSource,
    FConst,
    FState,
    FDeriv,
    FMem,
    FDelay,
    FInit,
    FLoop,
    FTrig,
    FMath,
    NumFronts
};
static int front(Diagram& d, int kind, Shape sh, int var)
{
    Ty ty = sh.ty;
    int n = sh.size;
    switch (kind)
    {
    case FIn: return d.input(var, ty, n);
    case FSource: return d.add(KSource, {}, Val(), 0, var + 1, ty, n);
    case FConst: return d.add(KConst, {}, letter(sh, 2 - var % 2), 0, 0, ty, n);
    case FState:
    {
        int u = d.input(var, ty, n);
        return d.add(KInteg, {u}, letter(sh, 1 + var % 2), 0, 0, ty, n);
    }
    case FDeriv:
    {
        int u = d.input(var, ty, n);
        return d.add(KDeriv, {u}, letter(sh, 1), 0, 0, ty, n);
    }
    case FMem:
    {
        int u = d.input(var, ty, n);
        return d.add(KMem, {u}, letter(sh, 1 + var % 2), 0, 0, ty, n);
    }
    case FDelay:
    {
        int u = d.input(var, ty, n), ini = d.add(KConst, {}, letter(sh, 2), 0, 0, ty, n), dl = d.add(KConst, {}, Val(0.3));
        return d.add(KDelay, {u, dl, ini}, Val(), 2, 0, ty, n);
    }
    case FInit:
    {
        int u = d.input(var, ty, n);
        return d.add(KInit, {u}, Val(), 0, 0, ty, n);
    }
    case FLoop:
    {
        // m' = m + y
        int m = d.sig(ty, n);
        int s = d.sig(ty, n);
        int y = d.add(KInit, {s}, Val(), 0, 0, ty, n);
        d.add(KAdd, {m, y}, letter(sh, 1), 0, 0, ty, n);
        d.add(KSiso, {m}, Val(), 0, var, ty, n, s);
        d.add(KMem, {d.nodes[d.nodes.size() - 2].out[0]}, letter(sh, 1), 0, 0, ty, n, m);
        return s;
    }
    case FTrig:
    {
        int u = d.input(var, ty, n), tr = d.add(KSource, {}, Val(), 0, var, TB);
        return d.add(KTrig, {u, tr}, letter(sh, 1), 0, 0, ty, n);
    }
    default:
    {
        int u = d.input(var, ty, n);
        int s = d.add(KSiso, {u}, Val(), 0, 2, ty, n);
        return d.add(KSub, {u, s}, Val(), 0, 0, ty, n);
    }
    }
}
// every kind of input, every engine, stepper, order of the blocks and kind of use
static void fronts()
{
    int kind = choose(NumFronts);
    Shape sh = pick(shapes);
    int var  = choose(mc::ex.thorough ? 4 : 2);
    Diagram d;
    int x = front(d, kind, sh, var);
    int y = d.add(KInit, {x}, Val(), 0, 0, sh.ty, sh.size);
    int uses = choose(5);
    if (uses == 1) d.add(KInteg, {y}, letter(sh, 1), 0, 0, sh.ty, sh.size);           // a state whose derivative it is
    if (uses == 2) d.add(KSub, {x, y}, Val(), 0, 0, sh.ty, sh.size);                  // how far the input has moved
    if (uses == 3) d.add(KInit, {d.add(KAdd, {y, x}, letter(sh, 0), 0, 0, sh.ty, sh.size)}, Val(), 0, 0, sh.ty, sh.size);
    if (uses == 4)                                                                     // decay towards it
    {
        int s = d.sig(sh.ty, sh.size);
        int e = d.add(KSub, {y, s}, Val(), 0, 0, sh.ty, sh.size);
        d.add(KInteg, {e}, letter(sh, 2), 0, 0, sh.ty, sh.size, s);
    }
    BuildOpt o;
    int rot = choose(int(mc::ex.thorough ? d.nodes.size() : std::min<std::size_t>(3, d.nodes.size())));
    for (std::size_t i = 0; i < d.nodes.size(); i++) o.order.push_back(int((i + rot) % d.nodes.size()));
    if (choose(2)) std::reverse(o.order.begin(), o.order.end());
    int eng = choose(3), stp = choose(3);
    o.style = (eng + kind) % 3;
    double t0 = var ? -1.5 : 0;
    Plan p{t0, {t0 + 0.5, t0 + 0.5, t0 + 1.75, t0 + 2}, 0.0625, 0.5, (kind + uses + rot) % 2 == 0};
    MC_LOG(d.text());
    drive(d, o, eng, stp, p, 1e-7);
}
// every sequence of inputs, also the same value, special values, and nothing at all after the first time
static const int Gone = 8;
static void sequences()
{
    Shape sh = pick(shapes);
    int n    = mc::ex.thorough ? 5 : 4;
    int eng  = choose(3);
    std::vector<int> w;
    for (int i = 0; i < n; i++) w.push_back(choose(i > 2 ? 4 : i ? 7 : 8));
    int blocks = choose(2) + 1;
    Diagram d;
    int x      = d.input(0, sh.ty, sh.size);
    double t0  = w[1] % 2 ? -2 : 0;
    bool gone  = false;
    // what comes later need not be special
    static const int later[] = {0, 1, 5, 2, 3, 7, Gone}, last[] = {1, 2, 6, Gone};
    for (int i = 1; i < n; i++) w[i] = i > 2 ? last[w[i]] : later[w[i]];
    for (int k : w) gone = gone || k == Gone;
    d.input_fn = [=](int, double t, Val& v)
    {
        int k = w[std::min(n - 1, int(t - t0))];
        if (k == Gone) return false;
        v = letter(sh, k);
        return true;
    };
    for (int i = 0; i < blocks; i++) d.add(KInit, {x}, Val(), 0, 0, sh.ty, sh.size);
    std::vector<double> runs;
    for (int i = 1; i < n; i++) runs.push_back(t0 + i);
    MC_LOG(d.text() << mc::str(w));
    drive(d, {}, eng, SEuler, {t0, runs, 1e-3, 1, w[0] % 2 == 0}, 0);
}
// rejected steps and additional evaluations
static void rejections()
{
    Shape sh = pick(shapes);
    Script s;
    for (int i = 0; i < (mc::ex.thorough ? 4 : 3); i++) s.acts.push_back(choose(ANumActs));
    s.extras = {choose(5)};
    int eng  = choose(3);
    Diagram d;
    int u = d.input(choose(2), sh.ty, sh.size), c = d.sig(sh.ty, sh.size), q = d.sig(sh.ty, sh.size);
    int y = d.add(KInit, {c}, Val(), 0, 0, sh.ty, sh.size);
    int z = d.add(KInit, {q}, Val(), 0, 0, sh.ty, sh.size);
    d.add(KAdd, {u, c}, letter(sh, 0), 0, 0, sh.ty, sh.size, q);
    d.add(KSub, {z, c}, Val(), 0, 0, sh.ty, sh.size);
    d.add(KInteg, {d.nodes.back().out[0]}, letter(sh, 1), 0, 0, sh.ty, sh.size, c);
    d.add(KMem, {y}, letter(sh, 2), 0, 0, sh.ty, sh.size);
    MC_LOG(d.text() << script_text(s));
    drive_scripted(d, {}, eng, s, {0, {0.5, 1.25, 1.75}, 0.03125, 0.5, true}, 1e-8);
}
// the model goes on with other engines and is initialised again: the value stays
static void again()
{
    Shape sh = pick(shapes);
    int kind = choose(3);
    Diagram d;
    int x = kind == 1 ? front(d, FState, sh, 0) : kind == 2 ? front(d, FMath, sh, 1) : front(d, FIn, sh, 0);
    int y = d.add(KInit, {x}, Val(), 0, 0, sh.ty, sh.size);
    d.add(KSub, {x, y}, Val(), 0, 0, sh.ty, sh.size);
    BuildOpt o;
    if (choose(2)) o.order = std::vector<int>{int(d.nodes.size()) - 1, int(d.nodes.size()) - 2};
    if (!o.order.empty())
        for (int i = 0; i + 2 < int(d.nodes.size()); i++) o.order.push_back(i);
    int e1 = choose(3), e2 = choose(3), fresh = choose(2), stp = choose(3);
    RefSim r(d, stp);
    auto b  = build(d, o);
    auto st = make_stepper(stp);
    std::unique_ptr<pooya::SimulatorBase> sim, sim2;
    auto start = [&](int e) { return make_engine(e, b->model(), b->inputs(), st.get()); };
    sim = start(e1);
    sim->init(1);
    r.init(1);
    compare(*b, r, "init");
    sim->run(1.5);
    r.run(1.5);
    compare(*b, r, "run");
    std::string what = std::string(engine_name(e1)) + " then " + engine_name(e2) + (fresh ? " initialised again: " : ": ");
    if (fresh)
        sim2 = start(e2);
    else
        e2 = e1;
    auto& s2 = fresh ? *sim2 : *sim;
    double t = choose(2) ? 3 : -2;
    s2.init(t);
    r.init(t);
    compare(*b, r, what + "second init");
    s2.run(t + 0.75);
    r.run(t + 0.75);
    compare(*b, r, what + "run after the second init");
}
// two models with the same wiring in turns; many blocks with different values in one model
static void many()
{
    Shape sh = pick(shapes);
    int n    = pick({1, 2, 7, 40});
    int eng  = choose(3);
    Diagram d;
    d.input_fn = [=](int s, double t, Val& v)
    {
        v = zero(sh.ty, sh.size);
        for (int i = 0; i < int(v.v.size()); i++) v.v[i] = s * 3 + t * (s + 1) + i;
        return true;
    };
    for (int i = 0; i < n; i++) d.add(KInit, {d.input(0, sh.ty, sh.size)}, Val(), 0, 0, sh.ty, sh.size);
    RefSim ra(d, SEuler), rb(d, SEuler);
    auto a = build(d), b = build(d);
    auto sa = make_engine(eng, a->model(), a->inputs(), nullptr), sb = make_engine(choose(3), b->model(), b->inputs(), nullptr);
    sa->init(0);
    ra.init(0);
    compare(*a, ra, "first model");
    sa->run(1);
    ra.run(1);
    sb->init(5);
    rb.init(5);
    compare(*a, ra, "first model");
    compare(*b, rb, "second model");
    sb->run(7);
    rb.run(7);
    sa->run(8);
    ra.run(8);
    compare(*a, ra, "first model");
    compare(*b, rb, "second model");
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv, {{"kinds of input", fronts}, {"input sequences", sequences}, {"rejected steps", rejections}, {"initialised again", again}, {"many blocks", many}});
}
