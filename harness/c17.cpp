// C17: the simulation clock.
#include "drive.hpp"
using namespace ref;

// models with integrators
static Diagram model(int id)
{
    Diagram d;
    int u  = d.input(0);
    int dx = d.sig();
    int x  = d.add(KInteg, {dx}, Val(1.5));
    if (id == 0)
    {
        d.add(KSub, {u, x}, Val(), 0, 0, TS, 1, dx);
    }
    else if (id == 1)
    {
        // memory of the state in the loop, a trigger, a derivative
        int m  = d.add(KMem, {x}, Val(4));
        int tr = d.add(KSource, {}, Val(), 0, 1, TB);
        int y  = d.add(KTrig, {m, tr}, Val(2));
        d.add(KAdd, {m, u, y}, Val(0.25), 0, 0, TS, 1, dx);
        d.add(KMem, {dx}, Val(-1));
    }
    else if (id == 2)
    {
        int g  = d.add(KConst, {}, Val(0.375));
        int dl = d.add(KDelay, {x, g, u}, Val(), 2);
        d.add(KDeriv, {dl}, Val(0.5));
        d.add(KSub, {dl, u}, Val(), 0, 0, TS, 1, dx);
        d.add(KInit, {u}, Val());
    }
    else
    {
        // arrays
        int a  = d.add(KSource, {}, Val(), 0, 1, TA, 3);
        int da = d.sig(TA, 3);
        int z  = d.add(KInteg, {da}, Val(TA, {1, 2, 3}), 0, 0, TA, 3);
        d.add(KSub, {a, z}, Val(), 0, 0, TA, 3, da);
        d.add(KMem, {z}, Val(TA, {0, 0, 1}), 0, 0, TA, 3);
        d.add(KSo, {z, x, u}, Val(), 0, 1, TS, 1, dx);
    }
    return d;
}

// sequences of valid and invalid calls
static void sequences(int depth)
{
    int id  = choose(4);
    int eng = choose(3);
    int stp = choose(mc::ex.thorough ? 3 : 2);
    double t0 = pick({0.0, -2.0});
    bool early = id == 0 || id == 3; // may the clock be set back? (not before the samples of a delay or derivative)
    Diagram d  = model(id);
    RefSim r(d, stp);
    auto b    = build(d);
    auto st   = make_stepper(stp);
    auto sim  = make_engine(eng, b->model(), b->inputs(), st.get());
    std::string txt = std::string(engine_name(eng)) + "/" + stepper_name(stp) + " model " + std::to_string(id);
    double t  = t0;
    bool started = false;
    for (int i = 0; i < depth; i++)
    {
        int op = choose(8);
        if (!started && op > 1) op = op % 2; // the first call: init or run
        switch (op)
        {
        case 0:
        case 1:
            if (started) t += op == 0 ? 0.25 : 0;
            if (!started && op == 1)
            {
                txt += " run(" + mc::str(t) + ")";
                sim->run(t);
            }
            else
            {
                txt += " init(" + mc::str(t) + ")";
                sim->init(t);
            }
            r.init(t);
            started = true;
            break;
        case 2:
        case 3:
            t += op == 2 ? 0.25 : 1;
            txt += " run(" + mc::str(t) + ",max " + (op == 2 ? "1" : "0.25") + ")";
            r.run(t, 1e-3, op == 2 ? 1 : 0.25);
            sim->run(t, 1e-3, op == 2 ? 1 : 0.25);
            break;
        case 4:
            txt += " run(again)";
            r.run(t);
            sim->run(t);
            break;
        case 5:
        case 6:
        {
            double back = op == 5 ? t - 0.5 : std::nextafter(t, -10);
            txt += " run(" + std::string(op == 5 ? "-0.5" : "just before") + ")";
            MC_CHECK(mc::throws([&] { sim->run(back); }), txt << ": running back to " << back << " from " << t << " does not throw");
            continue; // the signals are not specified; what follows has to be as if nothing had been called
        }
        default:
            if (!early) throw mc::Discard{};
            t -= 0.75;
            txt += " init(" + mc::str(t) + ")";
            sim->init(t);
            r.init(t);
        }
        compare(*b, r, txt);
    }
    MC_LOG(txt << "; " << d.text());
}
// one call or several
static void splitting()
{
    int id   = choose(4);
    int eng  = choose(3);
    int stp  = choose(2);
    int cut  = choose(mc::ex.thorough ? 128 : 32); // after which of the steps a call ends
    double h = pick({0.25, 0.125, 2.0, 1024.0});
    int n    = mc::ex.thorough ? 8 : 6;
    double t0 = pick({0.0, -0.5});
    if (h > 1 && id != 0 && id != 2) throw mc::Discard{}; // grows too fast
    if (h > 4 && stp == 1 && id == 0) throw mc::Discard{};
    Diagram d = model(id);
    auto one  = build(d), two = build(d);
    auto s1 = make_stepper(stp), s2 = make_stepper(stp);
    auto e1 = make_engine(eng, one->model(), one->inputs(), s1.get()), e2 = make_engine(eng, two->model(), two->inputs(), s2.get());
    bool expl = choose(2);
    if (expl)
        e1->init(t0);
    else
        e1->run(t0);
    e2->init(t0);
    e1->run(t0 + n * h, h / 100, h);
    for (int i = 1; i <= n; i++)
        if (i == n || (cut >> (i - 1) & 1)) e2->run(t0 + i * h, h / 100, h);
    MC_LOG(engine_name(eng) << "/" << stepper_name(stp) << " model " << id << " step " << h << " cuts " << cut);
    for (std::size_t i = 0; i < one->sig.size(); i++)
    {
        Val a = read(one->sig[i]), c = read(two->sig[i]);
        for (double x : a.v) mc::ex.observe(x);
        MC_CHECK(close(a, c, 1e-12), engine_name(eng) << "/" << stepper_name(stp) << ", " << n << " steps of " << h << ": x" << i << " is " << a << " after one call and " << c << " after several (" << cut << "); " << d.text());
    }
}
// the first run call and init; the model's own input hook; no integrators
static void first_call()
{
    int eng   = choose(3);
    double t0 = pick({0.0, -3.0, 0.1, 1e6});
    int id    = choose(5);
    int more  = choose(3);
    int lim   = choose(3);
    Diagram d;
    if (id < 4)
        d = model(id);
    else
    {
        int u = d.input(0);
        int m = d.add(KMem, {u}, Val(7));
        d.add(KDeriv, {u}, Val(2));
        d.add(KAdd, {u, m}, Val(1));
    }
    std::vector<std::vector<Val>> seen[2];
    for (int way = 0; way < 2; way++)
    {
        auto b   = build(d);
        auto st  = make_stepper(SRk4);
        auto sim = make_engine(eng, b->model(), b->inputs(), id < 4 ? st.get() : nullptr);
        auto look = [&]
        {
            std::vector<Val> row;
            for (auto& s : b->sig) row.push_back(read(s));
            seen[way].push_back(row);
        };
        if (way == 0)
            sim->init(t0);
        else if (lim == 0)
            sim->run(t0);
        else
            sim->run(t0, lim == 1 ? 0.5 : 1e-6, lim == 1 ? 0.75 : 1e3);
        look();
        for (int k = 1; k <= more; k++)
        {
            sim->run(t0 + 0.5 * k, 1e-3, 0.25);
            look();
        }
    }
    MC_LOG(engine_name(eng) << " model " << id << " at " << t0);
    for (std::size_t k = 0; k < seen[0].size(); k++)
        for (std::size_t i = 0; i < seen[0][k].size(); i++)
        {
            for (double x : seen[0][k][i].v) mc::ex.observe(x);
            MC_CHECK(close(seen[0][k][i], seen[1][k][i], 0), engine_name(eng) << " at " << t0 << ", call " << k << ": x" << i << " is " << seen[0][k][i] << " after init and " << seen[1][k][i] << " after a first run call; " << d.text());
        }
}
// a simulator made anew for a model another one has simulated
static void new_simulator()
{
    int id  = choose(4);
    int e1  = choose(3), e2 = choose(3);
    int s1  = choose(2), s2 = choose(2);
    int n   = choose(3);
    bool alive = choose(2);
    int first  = choose(2);
    Diagram d  = model(id);
    auto b     = build(d);
    RefSim r(d, s1);
    auto st1 = make_stepper(s1), st2 = make_stepper(s2);
    auto sim = make_engine(e1, b->model(), b->inputs(), st1.get());
    r.init(0.5);
    sim->init(0.5);
    for (int k = 1; k <= n; k++)
    {
        r.run(0.5 + 0.25 * k);
        sim->run(0.5 + 0.25 * k);
    }
    if (!alive) sim.reset();
    double t  = 0.5 + 0.25 * n + 0.125;
    auto sim2 = make_engine(e2, b->model(), b->inputs(), st2.get());
    r.stepper = s2;
    r.init(t);
    if (first)
        sim2->init(t);
    else
        sim2->run(t);
    std::string txt = std::string(engine_name(e1)) + " then " + engine_name(e2) + ", model " + std::to_string(id);
    MC_LOG(txt);
    compare(*b, r, txt);
    for (int k = 1; k <= 2; k++)
    {
        r.run(t + 0.5 * k, 1e-3, 0.25);
        sim2->run(t + 0.5 * k, 1e-3, 0.25);
        compare(*b, r, txt);
    }
}
// however short a step is, it is a step
static void short_steps()
{
    double t0 = pick({0.0, 1.0, -1.0, 1000.0, -1e6});
    double dt = pick({0.0, 4.0, 0x1p-30, 1e-6, 1e-9, 1e-12}); // 0: to the next number, 4: four numbers on
    int eng   = choose(3);
    int stp   = choose(3);
    int n     = pick({1, 100});
    int twice = choose(2);
    Diagram d;
    int c = d.add(KConst, {}, Val(0x1p40));
    int x = d.add(KInteg, {c}, Val(0));
    d.add(KMem, {x}, Val(-1));
    auto b   = build(d);
    auto st  = make_stepper(stp);
    auto sim = make_engine(eng, b->model(), b->inputs(), st.get());
    sim->init(t0);
    double t = t0, before = -1;
    MC_LOG("from " << t0 << " by " << dt << ", " << n << " times");
    for (int i = 0; i < n; i++)
    {
        double last = t;
        if (dt == 0)
            t = std::nextafter(t, 1e300);
        else if (dt == 4)
            for (int k = 0; k < 4; k++) t = std::nextafter(t, 1e300);
        else
            t += dt;
        if (t == last || !std::isnormal(t - last)) throw mc::Discard{};
        before = read(b->sig[x]).v[0];
        sim->run(t, (t - last) / 4, 1);
        if (twice) sim->run(t, (t - last) / 4, 1);
        double want = (t - t0) * 0x1p40, got = read(b->sig[x]).v[0];
        mc::ex.observe(got);
        MC_CHECK(std::fabs(got - want) <= 1e-9 * want, engine_name(eng) << "/" << stepper_name(stp) << " from " << t0 << ", call " << i << " to a time later by " << t - last << ": the state is " << got << ", expected " << want);
        double m = read(b->sig[2]).v[0];
        if (!twice && stp != SRkf45) MC_CHECK(std::fabs(m - before) <= 1e-9 * std::fabs(before), "from " << t0 << ", call " << i << " to a time later by " << t - last << ": the memory shows " << m << ", expected " << before);
    }
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"sequences", [] { sequences(mc::ex.thorough ? 6 : 4); }},
                         {"splitting", splitting},
                         {"first call", first_call},
                         {"new simulator", new_simulator},
                         {"short steps", short_steps}});
}
