// C10: derivative blocks.
#include "drive.hpp"
using namespace ref;

static Val val(Ty ty, int size, double a)
{
    Val v = zero(ty, size);
    for (std::size_t i = 0; i < v.v.size(); i++) v.v[i] = a * (1 + 0.5 * double(i)) - double(i);
    return v;
}
static Val y0_of(Ty ty, int size, int k)
{
    Val v = zero(ty, size);
    if (k)
        for (std::size_t i = 0; i < v.v.size(); i++) v.v[i] = 7.5 - double(i);
    return v;
}
// every sequence of step lengths (repeated times included) and input values; the input may change at a repeated time
static void sequences(Ty ty, int size)
{
    static const std::vector<double> dts{0.25, 1.5, 0.0, 1e-3};
    static const std::vector<double> us{0, 1, -3.5, 1e6};
    int n     = mc::ex.thorough ? 5 : 4;
    double t0 = choose(2) ? 0.0 : -1.0;
    int y0    = choose(2);
    int nd    = mc::ex.thorough ? 4 : 3;
    std::vector<double> ts{t0}, u, dt;
    for (int i = 0; i < n; i++) dt.push_back(dts[choose(nd)]);
    // the unit of time does not matter
    double unit = std::vector<double>{1, 0x1p-23, 0x1p-36, 0x1p20}[mc::spread(4)];
    for (double x : dt) ts.push_back(ts.back() + x * unit);
    for (int i = 0; i <= n; i++) u.push_back(us[choose(i == 0 ? 1 : i < n ? 3 : 2) + (i == 0)]);
    int eng = int(dt[0] * 4 + u[1] + u[2] * 2 + 8) % 3;
    Diagram d;
    auto idx   = std::make_shared<int>(0);
    int x      = d.input(0, ty, size);
    d.input_fn = [=](int, double, Val& v)
    {
        v = val(ty, size, u[*idx]);
        return true;
    };
    int y = d.add(KDeriv, {x}, y0_of(ty, size, y0), 0, 0, ty, size);
    d.add(KDeriv, {y}, y0_of(ty, size, 1 - y0), 0, 0, ty, size);
    MC_LOG("times " << mc::str(ts) << " inputs " << mc::str(u));
    RefSim r(d, SEuler);
    auto b   = build(d);
    auto sim = make_engine(std::abs(eng), b->model(), b->inputs(), nullptr);
    r.init(t0);
    if (y0)
        sim->init(t0);
    else
        sim->run(t0);
    compare(*b, r, "init");
    for (int i = 1; i <= n; i++)
    {
        *idx = i;
        r.run(ts[i]);
        sim->run(ts[i]);
        compare(*b, r, std::string(engine_name(std::abs(eng))) + " run " + std::to_string(i) + " to " + mc::str(ts[i]) + ", times " + mc::str(ts) + " inputs " + mc::str(u));
    }
}
// derivatives of states and sources inside the equations that are integrated
static void in_equations()
{
    int st    = choose(3);
    int eng   = choose(3);
    int shape = choose(6);
    bool arr  = choose(2);
    double t0 = pick({0.0, -1.5});
    double hm = pick({0.125, 0.5});
    Ty ty     = arr ? TA : TS;
    int size  = arr ? 3 : 1;
    Diagram d;
    int s   = d.sig(ty, size);
    int src = d.add(KSource, {}, Val(), 0, 3, ty, size);
    int y;
    if (shape == 0) // derivative of the state drives the state
        y = d.add(KSub, {d.add(KDeriv, {s}, y0_of(ty, size, 1), 0, 0, ty, size), s}, Val(), 0, 0, ty, size);
    else if (shape == 1) // derivative of a source
        y = d.add(KDeriv, {src}, y0_of(ty, size, 1), 0, 0, ty, size);
    else if (shape == 2) // second derivative of the state
        y = d.add(KSub, {src, d.add(KDeriv, {d.add(KDeriv, {s}, y0_of(ty, size, 0), 0, 0, ty, size)}, y0_of(ty, size, 0), 0, 0, ty, size)}, Val(), 0, 0, ty, size);
    else if (shape == 3) // only observes
        y = d.add(KSub, {src, s}, Val(), 0, 0, ty, size);
    else // of a state that jumps at the beginning of steps
        y = shape == 4 ? d.add(KSub, {src, s}, Val(), 0, 0, ty, size) : d.add(KSub, {src, d.add(KDeriv, {s}, y0_of(ty, size, 1), 0, 0, ty, size)}, Val(), 0, 0, ty, size);
    if (shape < 4)
        d.add(KInteg, {y}, y0_of(ty, size, 1), 0, 0, ty, size, s);
    else
        d.add(KTrig, {y, d.add(KSource, {}, Val(), 0, 1, TB)}, y0_of(ty, size, 1), 0, 0, ty, size, s);
    d.add(KDeriv, {s}, y0_of(ty, size, 1), 0, 0, ty, size);
    d.add(KDeriv, {y}, y0_of(ty, size, 0), 0, 0, ty, size);
    BuildOpt o;
    if (choose(2))
        for (int i = int(d.nodes.size()); i-- > 0;) o.order.push_back(i);
    MC_LOG(d.text());
    drive(d, o, eng, st, {t0, {t0 + 0.25, t0 + 0.25, t0 + 1, t0 + 1.375}, 0.0625, hm, choose(2) == 1}, 1e-6);
}
static void rejections()
{
    Script s;
    int n = mc::ex.thorough ? 4 : 3;
    for (int i = 0; i < n; i++) s.acts.push_back(choose(ANumActs));
    s.extras = {choose(5), 0, choose(2) ? 4 : 2};
    int eng  = choose(3);
    bool arr = choose(2);
    Ty ty    = arr ? TA : TS;
    int size = arr ? 2 : 1;
    Diagram d;
    int x = d.sig(ty, size);
    int q = d.add(KDeriv, {x}, y0_of(ty, size, 1), 0, 0, ty, size);
    int e = d.add(KSource, {}, Val(), 0, 0, ty, size);
    int g = d.add(KDeriv, {e}, y0_of(ty, size, 0), 0, 0, ty, size);
    int h = d.add(KGain, {q}, Val(), 0.5, 0, ty, size);
    int f = d.add(KSub, {g, h}, Val(), 0, 0, ty, size);
    d.add(KInteg, {f}, y0_of(ty, size, 1), 0, 0, ty, size, x);
    MC_LOG(d.text() << script_text(s));
    drive_scripted(d, {}, eng, s, {0, {0.5, 1.25, 1.25, 1.75}, 0.03125, 0.5, true}, 1e-6);
}
static void long_runs()
{
    int steps = pick({20, 300});
    int eng   = choose(3);
    int size  = pick({1, 2, 8, 64});
    int mode  = choose(3);
    Diagram d;
    int a = d.add(KSource, {}, Val(), 0, mode, TA, size);
    int s = d.add(KSource, {}, Val(), 0, 5 - mode);
    d.add(KDeriv, {a}, y0_of(TA, size, 1), 0, 0, TA, size);
    int ds = d.add(KDeriv, {s}, Val(4));
    d.add(KDeriv, {ds}, Val(5));
    Plan p{-3, {}, 0.01, 0.25, true};
    double t = -3;
    for (int i = 0; i < steps; i++) p.runs.push_back(t += 0.0625 * (i % 5 + (mode == 1)));
    drive(d, {}, eng, SEuler, p, 1e-7);
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"scalar sequences", [] { sequences(TS, 1); }},
                         {"inside integrated equations", in_equations},
                         {"rejected steps", rejections},
                         {"long runs", long_runs},
                         {"array sequences", [] { sequences(TA, 3); }, 2}});
}
