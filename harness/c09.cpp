// C09: delay blocks.
#include "drive.hpp"
using namespace ref;

// time -> index of the step
struct Table
{
    std::vector<double> t, delay;
    int at(double x) const
    {
        int k = 0;
        while (k + 1 < int(t.size()) && t[k + 1] <= x) k++;
        return k;
    }
};
static Val in_val(double t, Ty ty, int size, int salt)
{
    Val v = zero(ty, size);
    for (std::size_t i = 0; i < v.v.size(); i++) v.v[i] = 10 * std::sin(7.3 * t + salt + double(i)) + 3 * t * double(i);
    return v;
}
// in, delay and initial are inputs; every sequence of step lengths and delays
static void sequences(Ty ty, int size)
{
    double life  = mc::ex.thorough ? pick({0.5, 1.0, 2.0, 64.0}) : pick({0.5, 2.0});
    double t0    = mc::ex.thorough ? pick({0.0, -1.25}) : life > 1 ? 0.0 : -1.25;
    int n        = mc::ex.thorough ? 5 : 4;
    static const std::vector<double> dts{0.25, 0.5, 1.5, 0.0};
    static const std::vector<double> delays{0.5, 0.25, 0.0, 0.3, 2.0, -0.75, 1.0, 5.0};
    Table tb;
    tb.t = {t0};
    for (int i = 0; i < n; i++) tb.t.push_back(tb.t.back() + pick(dts));
    // a delay for the steps before the last two and one for each of these
    std::vector<double> dl;
    for (int i = 0; i < 3; i++)
    {
        double x = delays[choose(mc::ex.thorough ? 8 : 6)];
        if (x > life) throw mc::Skip{};
        dl.push_back(x);
    }
    for (int i = 0; i <= n; i++) tb.delay.push_back(dl[i <= n - 2 ? 0 : i - n + 2]);
    if (!mc::ex.thorough && dl[0] != dl[1] && dl[0] != dl[2] && dl[1] != dl[2]) throw mc::Skip{};
    Diagram d;
    int x      = d.input(0, ty, size), q = d.input(1), ini = d.input(2, ty, size);
    d.input_fn = [=](int s, double t, Val& v)
    {
        if (s == q)
            v = Val(tb.delay[tb.at(t)]);
        else
            v = in_val(t, ty, size, s == x ? 0 : 9);
        return true;
    };
    int y = d.add(KDelay, {x, q, ini}, Val(), life, 0, ty, size);
    d.add(KPipe, {y}, Val(), 0, 0, ty, size);
    int eng = int(dl[0] * 8 + tb.t[1] * 4 + n * 3) % 3;
    Plan p{t0, std::vector<double>(tb.t.begin() + 1, tb.t.end()), 1e-3, 1, dl[1] != 0.5};
    MC_LOG("lifespan " << life << " delays " << mc::str(dl) << " steps at " << mc::str(tb.t));
    drive(d, {}, std::abs(eng), SEuler, p);
}
// several samples dropped and needed: long irregular runs, delays equal to, close to and much below the lifespan
static void long_runs()
{
    double life  = pick({0.125, 0.75, 3.0, 100.0});
    int dmode    = choose(5);
    int smode    = choose(4);
    int steps    = pick({10, 80, 300});
    double t0    = pick({0.0, -20.0, 5.0});
    bool arr     = choose(2);
    Ty ty        = arr ? TA : TS;
    int size     = arr ? 3 : 1;
    Diagram d;
    int x      = d.input(0, ty, size), q = d.input(1), ini = d.input(2, ty, size);
    d.input_fn = [=](int s, double t, Val& v)
    {
        if (s == q)
        {
            int k = int(std::floor((t - t0) * 8));
            v = Val(dmode == 0 ? life : dmode == 1 ? life / 2 : dmode == 2 ? (k % 5 ? life : 0) : dmode == 3 ? life * (0.5 + 0.5 * std::sin(t)) : (k % 3 ? 0.01 : -life));
        }
        else
            v = in_val(t, ty, size, s == x ? 0 : 9);
        return true;
    };
    d.add(KDelay, {x, q, ini}, Val(), life, 0, ty, size);
    Plan p{t0, {}, 1e-3, 1, true};
    double t = t0;
    for (int i = 0; i < steps; i++)
    {
        t += smode == 0 ? 0.125 : smode == 1 ? (i % 7 == 6 ? 4.0 : 0.0625) : smode == 2 ? (i % 4 == 1 ? 0.0 : 0.25) : 0.03125 * (1 + i % 9);
        p.runs.push_back(t);
    }
    int eng = steps > 100 ? (dmode + smode) % 3 : choose(3);
    MC_LOG("lifespan " << life << " delay mode " << dmode << " step mode " << smode << " steps " << steps);
    drive(d, {}, eng, SEuler, p);
}
// delayed feedback: x' = f(x delayed, x), solved with intermediate evaluations, rejections and several steps per run
static void feedback()
{
    int st      = choose(4);
    int eng     = choose(3);
    bool arr    = choose(2);
    bool full   = mc::ex.thorough || st < 3;
    double del  = pick({0.25, 1.0, 0.1});
    double life = del * (choose(2) ? 1 : 4);
    double t0   = full ? pick({0.0, -2.0}) : -2;
    int init    = full ? choose(2) : 1;
    Ty ty = arr ? TA : TS;
    int size = arr ? 2 : 1;
    Diagram d;
    int s  = d.sig(ty, size);
    int dl = d.add(KConst, {}, Val(del));
    Val ic = zero(ty, size);
    for (auto& e : ic.v) e = 1.5;
    int ini = init ? d.add(KConst, {}, ic, 0, 0, ty, size) : d.add(KSource, {}, Val(), 0, 3, ty, size);
    int y   = d.add(KDelay, {s, dl, ini}, Val(), life, 0, ty, size);
    int e   = d.add(KSub, {y, s}, Val(), 0, 0, ty, size);
    d.add(KInteg, {e}, ic, 0, 0, ty, size, s);
    d.add(KDelay, {e, dl, y}, Val(), life, 0, ty, size);
    BuildOpt o;
    if (full ? choose(2) : 0)
        for (int i = int(d.nodes.size()); i-- > 0;) o.order.push_back(i);
    Plan p{t0, {t0 + 0.5, t0 + 0.5, t0 + 2, t0 + 2.25}, 0.0078125, full ? pick({0.125, 0.25}) : 0.25, true};
    MC_LOG(d.text());
    if (st < 3)
        drive(d, o, eng, st, p, 1e-7);
    else
    {
        Script s2;
        for (int i = 0; i < 4; i++) s2.acts.push_back(i < 3 ? choose(ANumActs) : int(AKeep));
        s2.extras = {1, 0, 4};
        s2.repeat = false;
        drive_scripted(d, o, eng, s2, p, 1e-7);
    }
}
// the delay itself is a signal of the model; chains of delays; delays sharing all their inputs
static void chains()
{
    int len = choose(4) + 1;
    int eng = choose(3);
    int st  = choose(2);
    int var = choose(3);
    bool arr = choose(2);
    Ty ty = arr ? TA : TS;
    int size = arr ? 4 : 1;
    Diagram d;
    int x  = d.add(KSource, {}, Val(), 0, 5, ty, size);
    int z  = d.add(KSource, {}, Val(), 0, 3, ty, size);
    int dl = var == 0 ? d.add(KConst, {}, Val(0.5)) : var == 1 ? d.add(KSource, {}, Val(), 0, 2) : d.add(KConst, {}, Val(0.0));
    std::vector<int> ys;
    for (int i = 0; i < len; i++)
    {
        ys.push_back(x = d.add(KDelay, {x, dl, z}, Val(), 2, 0, ty, size));
        ys.push_back(d.add(KDelay, {x, dl, x}, Val(), 2 + i, 0, ty, size)); // the same signal as input and initial value
    }
    if (st)
    {
        int c = d.sig();
        int g = d.add(KSiso, {c}, Val(), 0, 2);
        d.add(KInteg, {g}, Val(1), 0, 0, TS, 1, c);
    }
    Plan p{-1, {-0.75, -0.5, 0, 0.25, 0.25, 1, 1.5, 2.5, 2.625}, 0.0625, 0.25, true};
    MC_LOG(d.text());
    drive(d, {}, eng, st ? SRk4 : SEuler, p, 1e-8);
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"scalar sequences", [] { sequences(TS, 1); }},
                         {"long runs", long_runs},
                         {"delayed feedback", feedback},
                         {"chains of delays", chains},
                         {"array sequences", [] { sequences(TA, 3); }, 2}});
}
