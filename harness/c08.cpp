// C08: memory blocks.
#include "drive.hpp"
using namespace ref;

static Val letter(Ty ty, int size, int k, bool big = false)
{
    switch (ty)
    {
    case TI: return Val(TI, {k == 0 ? 0.0 : k == 1 ? -5.0 : big ? 2147483647.0 : 37.0});
    case TB: return Val(TB, {double(k & 1)});
    case TA:
    {
        Val v = zero(TA, size);
        // some letters differ in a few elements only
        for (int i = 0; i < size; i++) v.v[i] = k == 0 ? 0 : k == 2 && i == size / 2 ? 7 : 10 - i * 0.5;
        return v;
    }
    default: return Val(k == 0 ? 0.0 : k == 1 ? -2.5 : big ? 1e300 : 40.25);
    }
}
struct Shape
{
    Ty ty;
    int size;
};
static const std::vector<Shape> shapes{{TS, 1}, {TI, 1}, {TB, 1}, {TA, 1}, {TA, 3}};

// adds an integrator so that there are trial evaluations
static int clock_state(Diagram& d)
{
    int s = d.sig();
    int g = d.add(KSiso, {s}, Val(), 0, 2);
    d.add(KInteg, {g}, Val(0.5), 0, 0, TS, 1, s);
    return s;
}
// a chain of memories behind an input whose values at the steps are enumerated; in between it shows something else
static void chains()
{
    Shape sh = pick(shapes);
    int len  = choose(4) + 1;
    int mode = choose(3); // 0: no states; 1: RK4 with intermediate times; 2: several accepted steps per run
    int n    = mc::ex.thorough ? 5 : 4;
    std::vector<int> w;
    for (int i = 0; i < n; i++) w.push_back(choose(3));
    int ic  = choose(2);
    int eng = (len + w[0] + w[1] + mode) % 3;
    if (mc::ex.thorough) eng = choose(3);
    Diagram d;
    int x     = d.input(0, sh.ty, sh.size);
    double t0 = mode == 1 ? -1 : 0;
    d.input_fn = [=](int, double t, Val& v)
    {
        double k = t - t0;
        if (k == std::floor(k) && k >= 0 && k < n)
            v = letter(sh.ty, sh.size, w[int(k)], true);
        else
            v = letter(sh.ty, sh.size, int(std::floor(64 * k)) % 2 ? 1 : 2, true);
        return true;
    };
    if (mode) clock_state(d);
    for (int i = 0; i < len; i++) x = d.add(KMem, {x}, ic ? letter(sh.ty, sh.size, (i + 1) % 3, true) : zero(sh.ty, sh.size), 0, 0, sh.ty, sh.size);
    BuildOpt o;
    o.style = (len + ic) % 3;
    Plan p{t0, {}, 0.125, mode == 2 ? 0.25 : 1, w[0] != 1};
    for (int i = 1; i < n; i++) p.runs.push_back(t0 + i);
    if (n > 2 && w[1] == w[2]) p.runs.insert(p.runs.begin() + 1, p.runs[0]); // a repeated step
    MC_LOG(d.text() << " input at the steps " << mc::str(w));
    drive(d, o, eng, mode == 1 ? SRk4 : SEuler, p);
}
// rejected steps and additional evaluations
static void rejections()
{
    Shape sh = pick(shapes);
    Script s;
    int n = mc::ex.thorough ? 4 : 3;
    for (int i = 0; i < n; i++) s.acts.push_back(choose(ANumActs));
    s.extras = {choose(5)};
    int eng  = choose(3);
    int fb   = choose(2); // the derivative reads the memory
    Diagram d;
    int x      = d.input(0, sh.ty, sh.size);
    d.input_fn = [=](int, double t, Val& v)
    {
        v = letter(sh.ty, sh.size, int(std::floor(t * 32)) % 3);
        return true;
    };
    int m = d.add(KMem, {x}, letter(sh.ty, sh.size, 1), 0, 0, sh.ty, sh.size);
    int q = d.add(KMem, {m}, letter(sh.ty, sh.size, 2), 0, 0, sh.ty, sh.size);
    int c = d.sig();
    Node f;
    f.k   = KFunc;
    f.in  = fb ? std::vector<int>{c, q} : std::vector<int>{c};
    f.out = {d.sig()};
    f.fn  = 1;
    d.nodes.push_back(f);
    d.add(KInteg, {f.out[0]}, Val(0.5), 0, 0, TS, 1, c);
    int ms = d.add(KMem, {c}, Val(-3));
    d.add(KSub, {ms, c});
    MC_LOG(d.text() << script_text(s));
    drive_scripted(d, {}, eng, s, {0, {0.5, 1.25, 1.75}, 0.03125, 0.5, true}, 1e-8);
}
// loops through memories: any small machine of memories and functions
static void feedback()
{
    int n    = choose(mc::ex.thorough ? 4 : 3) + 1;
    Ty ty    = pick({TS, TI, TB, TA});
    int size = ty == TA ? 2 : 1;
    int eng  = choose(3);
    int rev  = choose(2);
    Diagram d;
    std::vector<int> m;
    for (int i = 0; i < n; i++) m.push_back(d.sig(ty, size));
    int clock = choose(2);
    for (int i = 0; i < n; i++)
    {
        int c = choose(n + 1), from = m[c % n];
        if (c == n || (i + c) % 2) // through a function of another memory and the time
        {
            Node f;
            f.k   = KFunc;
            f.in  = {m[i], m[(i + 1) % n]};
            f.out = {d.sig(ty, size)};
            f.fn  = i;
            d.nodes.push_back(f);
            from = f.out[0];
        }
        d.add(KMem, {from}, letter(ty, size, i % 2), 0, 0, ty, size, m[i]);
    }
    if (clock) clock_state(d);
    BuildOpt o;
    if (rev)
        for (int i = int(d.nodes.size()); i-- > 0;) o.order.push_back(i);
    MC_LOG(d.text());
    drive(d, o, eng, clock ? SRkf45 : SEuler, {0.25, {0.5, 1, 1.75, 2, 2, 3}, 0.0625, 0.5, choose(2) == 1}, 1e-7);
}
// accumulators, counters and toggles over many steps
static void long_runs()
{
    int steps = pick({3, 50, 400});
    int eng   = choose(3);
    int clock = choose(2);
    Diagram d;
    int a = d.sig(), i = d.sig(TI), b = d.sig(TB), v = d.sig(TA, 5);
    int src = d.add(KSource, {}, Val(), 0, 0);
    int s   = d.add(KAdd, {a, src}, Val(0));
    d.add(KMem, {s}, Val(0.5), 0, 0, TS, 1, a);
    int one = d.add(KConst, {}, Val(TI, {1}), 0, 0, TI);
    int ip  = d.add(KAdd, {i, one}, Val(TI, {0}), 0, 0, TI);
    d.add(KMem, {ip}, Val(TI, {-7}), 0, 0, TI, 1, i);
    Node f;
    f.k   = KFunc;
    f.in  = {i, b};
    f.out = {d.sig(TB)};
    d.nodes.push_back(f);
    d.add(KMem, {f.out[0]}, Val(TB, {1}), 0, 0, TB, 1, b);
    int src3 = d.add(KSource, {}, Val(), 0, 1, TA, 5);
    int av   = d.add(KSub, {src3, v}, Val(), 0, 0, TA, 5);
    d.add(KMem, {av}, Val(TA, {1, 2, 3, 4, 5}), 0, 0, TA, 5, v);
    if (clock) clock_state(d);
    Plan p{-3, {}, 0.01, 0.25, true};
    for (int k = 1; k <= steps; k++) p.runs.push_back(-3 + 0.125 * k);
    MC_LOG(d.text() << steps << " steps");
    drive(d, {}, eng, SEuler, p, 1e-7);
}
// the memory owns its value: changing what it was given or what it shows does not change what it remembers
static void ownership()
{
    using namespace pooya;
    int eng = choose(3);
    int n   = pick({1, 2, 64, 1000});
    Submodel m(nullptr, "m");
    Array ic = Array::Constant(n, 3.0);
    ArraySignal x(n, "x"), y(n, "y"), z(n, "z");
    auto mem = std::make_unique<MemoryA>(ic, &m);
    MemoryA mem2(Array::Constant(n, -1.0), &m);
    mem->connect({x}, {y});
    mem2.connect({y}, {z});
    ic.setConstant(99);
    Array buf = Array::Constant(n, 5.0);
    auto sim  = make_engine(eng, m, [&](Block&, double t) { buf.setConstant(10 + t); x = buf; buf.setConstant(-1); }, nullptr);
    auto all  = [&](const ArraySignal& s, double v) { return (s->get_value() == v).all(); };
    sim->init(0);
    MC_CHECK(all(y, 3) && all(z, -1), "array memory of length " << n << ": initial values " << y[0] << ", " << z[n - 1]);
    sim->run(1);
    MC_CHECK(all(y, 10) && all(z, 3), "array memory of length " << n << " after one step");
    y->clear();
    y = Array::Constant(n, 77.0); // written between the runs
    sim->run(2);
    MC_CHECK(all(y, 11) && all(z, 10), "array memory of length " << n << " after two steps: " << y[0] << ", " << z[0]);
    mc::ex.observe(uint64_t(n));
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"chains of memories", chains},
                         {"rejected steps", rejections},
                         {"feedback", feedback},
                         {"long runs", long_runs},
                         {"ownership", ownership}});
}
