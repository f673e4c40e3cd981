// C11: triggered integrators.
#include "drive.hpp"
using namespace ref;

static Val ramp(Ty ty, int size, double a)
{
    Val v = zero(ty, size);
    for (std::size_t i = 0; i < v.v.size(); i++) v.v[i] = a + 0.5 * double(i);
    return v;
}
// every sequence of trigger values at the accepted steps; between the steps the trigger shows the opposite
static void trigger_sequences()
{
    int n    = mc::ex.thorough ? 7 : 5;
    int mode = choose(5); // 0: Euler one step per run; 1: RK4; 2: RKF45; 3: several accepted steps per run; 4: runs of two steps, repeated times
    bool arr = choose(2);
    int noise = choose(2);
    std::vector<int> w;
    for (int i = 0; i <= n; i++) w.push_back(choose(2));
    int eng   = mc::ex.thorough ? choose(3) : (w[0] + w[1] * 2 + mode) % 3;
    double t0 = w[2] ? -2 : 0;
    Ty ty = arr ? TA : TS;
    int size = arr ? 1 + 2 * w[1] : 1;
    Diagram d;
    int u = d.input(0, ty, size), trg = d.input(1, TB);
    double h   = mode == 3 ? 0.25 : 1;
    d.input_fn = [=](int s, double t, Val& v)
    {
        double k = (t - t0) / h;
        int i    = int(std::floor(k));
        if (s == u)
            v = ramp(ty, size, 1 + t);
        else
            v = Val(TB, {double(k == i && i >= 0 ? w[i % w.size()] : noise)});
        return true;
    };
    int y = d.add(KTrig, {u, trg}, ramp(ty, size, 3), 0, 0, ty, size);
    d.add(KPipe, {y}, Val(), 0, 0, ty, size);
    d.add(KInteg, {y}, ramp(ty, size, 1), 0, 0, ty, size);
    Plan p{t0, {}, 0.125, mode == 3 ? 0.25 : 1.0, w[0] == 0};
    for (int i = 1; i <= n; i++)
    {
        p.runs.push_back(t0 + i);
        if (mode == 4) p.runs.push_back(t0 + i);
    }
    MC_LOG(d.text() << " trigger " << mc::str(w) << " in between " << noise);
    drive(d, {}, eng, mode == 1 ? SRk4 : mode == 2 ? SRkf45 : SEuler, p, 1e-8);
}
// several integrators with their own triggers, mixed with ordinary ones, coupled
static void mixes()
{
    int n = mc::ex.thorough ? 4 : 3;
    std::vector<int> kind; // 0: integrator, 1: triggered scalar, 2: triggered array
    for (int i = 0; i < n; i++) kind.push_back(choose(3));
    int couple = choose(2);
    int order  = choose(3);
    int nest   = choose(2);
    int eng    = choose(3);
    int st     = choose(2);
    Diagram d;
    if (nest) d.sub_parent = {-1, 0, 1};
    std::vector<int> s;
    for (int i = 0; i < n; i++) s.push_back(d.sig(kind[i] == 2 ? TA : TS, kind[i] == 2 ? 2 + i : 1));
    for (int i = 0; i < n; i++)
    {
        Ty ty    = kind[i] == 2 ? TA : TS;
        int size = kind[i] == 2 ? 2 + i : 1;
        Node f;
        f.k   = KFunc;
        f.in  = couple ? std::vector<int>{s[i], s[(i + 1) % n]} : std::vector<int>{s[i]};
        f.out = {d.sig(ty, size)};
        f.fn  = i;
        f.parent = nest ? i % 3 : 0;
        d.nodes.push_back(f);
        if (kind[i])
        {
            int trg = d.add(KSource, {}, Val(), 0, i, TB);
            // different triggers: every step, every second, every third
            Node g;
            g.k   = KFunc;
            g.in  = {d.add(KSource, {}, Val(), 0, i + 1, TI), trg};
            g.out = {d.sig(TB)};
            g.fn  = i;
            d.nodes.push_back(g);
            d.add(KTrig, {f.out[0], i % 2 ? g.out[0] : trg}, ramp(ty, size, 1 + i), 0, 0, ty, size, s[i]);
        }
        else
            d.add(KInteg, {f.out[0]}, ramp(ty, size, 1 + i), 0, 0, ty, size, s[i]);
        d.nodes.back().parent = nest ? (i + 1) % 3 : 0;
    }
    BuildOpt o;
    int m = int(d.nodes.size());
    if (order)
        for (int i = 0; i < m; i++) o.order.push_back(order == 1 ? m - 1 - i : (i % 2 ? m - 1 - i / 2 : i / 2));
    MC_LOG(d.text());
    drive(d, o, eng, st ? SRk4 : SEuler, {0, {0.25, 0.5, 0.5, 1.25, 1.5}, 0.125, 0.25, true}, 1e-8);
}
// the trigger depends on the state itself: the integrator resets itself, with intermediate evaluations beyond the threshold
static void self_trigger()
{
    int st    = choose(4);
    int eng   = choose(3);
    int fn    = choose(4);
    double ic = pick({0.0, 0.75, -0.5});
    double hm = pick({0.125, 0.5});
    double t0 = mc::ex.thorough ? pick({0.0, -1.0}) : -1;
    Diagram d;
    int s = d.sig();
    int u = d.add(KSiso, {s}, Val(), 0, fn % 3);
    int trg = d.sig(TB);
    Node f;
    f.k   = KFunc;
    f.in  = {s, u, d.add(KConst, {}, Val(0.1234567))}; // (an offset, so that no value lies on a threshold)
    f.fn  = fn;
    f.out = {trg};
    d.nodes.push_back(f);
    d.add(KTrig, {u, trg}, Val(ic), 0, 0, TS, 1, s);
    Plan p{t0, {t0 + 0.25, t0 + 1, t0 + 1, t0 + 1.5, t0 + 2.5}, 0.03125, hm, true};
    MC_LOG(d.text());
    if (st < 3)
    {
        // the trigger is a step function of the state: results near a step are not comparable
        drive(d, {}, eng, st, p, 1e-7);
    }
    else
    {
        Script sc;
        for (int i = 0; i < 3; i++) sc.acts.push_back(choose(ANumActs));
        sc.extras = {4, 0, 1};
        drive_scripted(d, {}, eng, sc, p, 1e-7);
    }
}
// triggers that are on at rejected steps and additional evaluations only
static void rejections()
{
    Script s;
    int n = mc::ex.thorough ? 4 : 3;
    for (int i = 0; i < n; i++) s.acts.push_back(choose(ANumActs));
    s.extras  = {choose(5)};
    int which = choose(4); // trigger pattern
    int eng   = choose(3);
    bool arr  = choose(2);
    Ty ty     = arr ? TA : TS;
    int size  = arr ? 2 : 1;
    Diagram d;
    int u = d.input(0, ty, size), trg = d.input(1, TB);
    d.input_fn = [=](int q, double t, Val& v)
    {
        long k = long(std::floor(t * 32));
        if (q == u)
            v = ramp(ty, size, 2 - t);
        else
            v = Val(TB, {double(which == 0 ? k % 16 != 0 : which == 1 ? k % 8 == 4 : which == 2 ? k % 3 == 0 : k == 0)});
        return true;
    };
    int y = d.add(KTrig, {u, trg}, ramp(ty, size, 3), 0, 0, ty, size);
    d.add(KTrig, {y, trg}, ramp(ty, size, 1), 0, 0, ty, size);
    int nt = d.add(KConst, {}, Val(TB, {0}), 0, 0, TB);
    d.add(KTrig, {y, nt}, ramp(ty, size, 1), 0, 0, ty, size);
    MC_LOG(d.text() << script_text(s));
    drive_scripted(d, {}, eng, s, {0, {0.5, 1.25, 1.25, 1.75}, 0.03125, 0.5, true}, 1e-8);
}
// trigger kept on, arrays of many lengths, long runs
static void long_runs()
{
    int size  = pick({1, 2, 7, 100});
    int mode  = choose(4);
    int eng   = choose(3);
    int st    = choose(2);
    Diagram d;
    int u = d.add(KSource, {}, Val(), 0, 1, TA, size), us = d.add(KSource, {}, Val(), 0, 0);
    int trg = d.input(0, TB);
    d.input_fn = [=](int, double t, Val& v)
    {
        long k = long(std::floor(t * 8));
        v = Val(TB, {double(mode == 0 ? 1 : mode == 1 ? 0 : mode == 2 ? k % 7 == 0 : (k / 5) % 2)});
        return true;
    };
    d.add(KTrig, {u, trg}, ramp(TA, size, 2), 0, 0, TA, size);
    d.add(KTrig, {us, trg}, Val(5));
    d.add(KInteg, {us}, Val(5));
    Plan p{0, {}, 0.01, 0.125, true};
    for (int i = 1; i < 120; i++) p.runs.push_back(0.125 * i);
    drive(d, {}, eng, st ? SRk4 : SEuler, p, 1e-7);
}
// states that have become infinite or NaN, or are a negative zero, restart like any other
static void special_states()
{
    static const std::vector<double> vs{1e308, INFINITY, -INFINITY, NAN, -0.0, 5e-324, 0};
    double a = pick(vs), c = pick(vs);
    int at   = choose(4);
    int eng  = choose(3);
    bool arr = choose(2);
    Ty ty = arr ? TA : TS;
    int size = arr ? 2 : 1;
    Diagram d;
    int u = d.input(0, ty, size), trg = d.input(1, TB);
    d.input_fn = [=](int s, double t, Val& v)
    {
        if (s == trg)
            v = Val(TB, {double(t == at)});
        else
        {
            v = zero(ty, size);
            for (auto& x : v.v) x = t < at ? a : 2 + t;
        }
        return true;
    };
    Val ic = zero(ty, size);
    ic.v[0] = c;
    d.add(KTrig, {u, trg}, ic, 0, 0, ty, size);
    MC_LOG("initial value " << c << " derivative " << a << " trigger at " << at);
    drive(d, {}, eng, SEuler, {0, {1, 2, 3, 4, 5}, 0.125, 1, true});
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"trigger sequences", trigger_sequences},
                         {"mixes", mixes},
                         {"self-triggered", self_trigger},
                         {"rejected steps", rejections},
                         {"special states", special_states},
                         {"long runs", long_runs}});
}
