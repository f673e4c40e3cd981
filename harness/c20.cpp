// C20: two simulations that share nothing.
// Calls one after the other in all orders; one simulation inside a callback of the other; two threads under a
// scheduler that decides at every function entry (builds with POINTS) or at every callback which of them goes on.
#include <linux/futex.h>
#include <sys/syscall.h>
#include <climits>
#include <thread>
#include "drive.hpp"
using namespace ref;

// ---- scheduler -----------------------------------------------------------------------------------------------
#define RAW __attribute__((no_instrument_function, no_sanitize("thread"), noinline))
namespace sched
{
static volatile int turn = -1, done0, done1;
static volatile unsigned progress;
static volatile int level = 0;       // 1: switch at callbacks, 2: at function entries
static volatile int npoints[2];      // passed so far
static volatile int nsw, sw[8], cur; // lengths of the turns; the last one is endless
static volatile int left;
static thread_local int me = -1;
RAW static void futex(volatile int* a, int op, int v, int ms)
{
    timespec ts{ms / 1000, (ms % 1000) * 1000000L};
    syscall(SYS_futex, a, op | FUTEX_PRIVATE_FLAG, v, ms ? &ts : nullptr, nullptr, 0);
}
RAW static void give(int to)
{
    __asm__ __volatile__("" ::: "memory");
    turn = to;
    __asm__ __volatile__("mfence" ::: "memory");
    futex(&turn, FUTEX_WAKE, INT_MAX, 0);
}
RAW static void wait_for_turn(int id)
{
    unsigned seen = progress;
    int idle      = 0;
    for (;;)
    {
        int t = turn;
        if (t == id) break;
        futex(&turn, FUTEX_WAIT, t, 10);
        if (turn == id) break;
        if (progress != seen)
        {
            seen = progress;
            idle = 0;
        }
        else if (++idle > 5)
            give(id); // the other one waits for something this one holds (or is gone)
    }
    __asm__ __volatile__("" ::: "memory");
}
RAW static void point(int id)
{
    npoints[id] = npoints[id] + 1;
    progress    = progress + 1;
    if (turn != id) wait_for_turn(id);
    if ((id == 0 ? done1 : done0) || cur >= nsw) return;
    if (left-- > 0) return;
    cur  = cur + 1;
    left = cur < nsw ? sw[cur] : INT_MAX;
    give(1 - id);
    wait_for_turn(id);
}
RAW static void finish(int id)
{
    (id == 0 ? done0 : done1) = 1;
    if (turn == id)
    {
        cur  = cur + 1;
        left = cur < nsw ? sw[cur] : INT_MAX;
        give(1 - id);
    }
}
RAW static void callback_point()
{
    if (me >= 0 && level == 1) point(me);
}
} // namespace sched
extern "C"
{
    RAW void __cyg_profile_func_enter(void*, void*)
    {
        if (sched::me >= 0 && sched::level == 2) sched::point(sched::me);
    }
    RAW void __cyg_profile_func_exit(void*, void*) {}
}

// ---- simulations ---------------------------------------------------------------------------------------------
static Diagram diagram(int id, int var)
{
    Diagram d;
    double o = 0.5 * var;
    if (id == 0)
    {
        // coupled states
        int u = d.input(var), dx = d.sig(), da = d.sig(TA, 2);
        int x = d.add(KInteg, {dx}, Val(1 + o));
        int z = d.add(KInteg, {da}, Val(TA, {2 - o, 3 + o}), 0, 0, TA, 2);
        int a = d.add(KSource, {}, Val(), 0, 1 + var, TA, 2);
        d.add(KSub, {a, z}, Val(), 0, 0, TA, 2, da);
        int s = d.add(KSo, {z, u}, Val(), 0, var);
        d.add(KSub, {s, x}, Val(), 0, 0, TS, 1, dx);
    }
    else if (id == 1)
    {
        // blocks with a past
        int u  = d.input(var);
        int m  = d.add(KMem, {u}, Val(3 + o));
        int dl = d.add(KConst, {}, Val(0.375 + o / 4));
        int y  = d.add(KDelay, {u, dl, m}, Val(), 3);
        int v  = d.add(KDeriv, {u}, Val(o - 1));
        int tr = d.add(KSource, {}, Val(), 0, var, TB);
        d.add(KTrig, {v, tr}, Val(o + 2));
        d.add(KInit, {u});
        int a = d.add(KSource, {}, Val(), 0, 1 + var, TA, 3);
        d.add(KMem, {a}, Val(TA, {o, 1, 2}), 0, 0, TA, 3);
        d.add(KDeriv, {a}, Val(TA, {1, o, 2}), 0, 0, TA, 3);
        d.add(KInit, {a}, Val(), 0, 0, TA, 3);
        d.add(KMul, {y, v}, Val(1 + o));
    }
    else
    {
        // the rest
        int u = d.input(var), i = d.input(var, TI), b = d.input(var, TB), a = d.input(var, TA, 3);
        int s = d.add(KAdd, {u, u, u}, Val(o));
        d.add(KMul, {s, u}, Val(2 - o));
        d.add(KSub, {s, u});
        d.add(KDiv, {u, s});
        d.add(KGain, {s}, Val(), 2 + o);
        d.add(KPipe, {b}, Val(), 0, 0, TB);
        int k = d.add(KAdd, {i, i}, Val(TI, {1.0 + var}), 0, 0, TI);
        d.add(KMul, {k, i}, Val(TI, {2}), 0, 0, TI);
        d.add(KMem, {k}, Val(TI, {5.0 + var}), 0, 0, TI);
        d.add(KAdd, {a, a}, Val(TA, {o, 1, 2}), 0, 0, TA, 3);
        d.add(KMul, {a, a}, Val(TA, {1, 1 + o, 2}), 0, 0, TA, 3);
        d.add(KSub, {a, a}, Val(), 0, 0, TA, 3);
        d.add(KGain, {a}, Val(), 3 - o, 0, TA, 3);
        d.add(KSiso, {s}, Val(), 0, var);
        d.add(KSiso, {a}, Val(), 0, var, TA, 3);
        d.add(KSo, {a, u}, Val(), 0, var, TA, 2);
        Node f;
        f.k   = KFunc;
        f.fn  = var;
        f.in  = {s, a};
        f.out = {d.sig(), d.sig(TA, 2)};
        d.nodes.push_back(f);
        Node g;
        g.k   = KSources;
        g.fn  = var;
        g.out = {d.sig(), d.sig(TI)};
        d.nodes.push_back(g);
        d.add(KConst, {}, Val(TB, {double(var & 1)}), 0, 0, TB);
    }
    return d;
}
struct Cfg
{
    int id, var, eng, stp, brief{0};
    bool operator<(const Cfg& o) const { return std::tie(id, var, eng, stp, brief) < std::tie(o.id, o.var, o.eng, o.stp, o.brief); }
};
struct Task
{
    static const int NOps = 5;
    Cfg c;
    Diagram d;
    std::unique_ptr<Built> b;
    std::shared_ptr<pooya::StepperBase> st;
    std::unique_ptr<pooya::SimulatorBase> sim;
    std::unique_ptr<pooya::History> h;
    std::vector<double> seen;
    std::function<void()> hook;
    bool states;
    explicit Task(Cfg cc) : c(cc), d(diagram(cc.id, cc.var)) { states = c.id < 2; }
    void note(const Val& v)
    {
        for (double x : v.v) seen.push_back(x);
    }
    void look(unsigned k, double t)
    {
        for (auto& s : b->sig)
            if (assigned(s))
                note(read(s));
            else
                seen.push_back(-777);
        h->update(k, t);
    }
    void op(int k)
    {
        double t0 = c.var ? -1 : 0;
        switch (k)
        {
        case 0:
        {
            b       = build(d);
            st      = make_stepper(c.stp);
            auto cb = b->inputs(0);
            sim     = make_engine(c.eng, b->model(), [this, cb](pooya::Block& m, double t)
                              {
                                  cb(m, t);
                                  sched::callback_point();
                                  if (hook) hook(); }, states ? st.get() : nullptr);
            h = std::make_unique<pooya::History>(2);
            for (auto& s : b->sig) h->track(s);
            break;
        }
        case 1:
            sim->init(t0);
            look(0, t0);
            break;
        case 2:
            if (c.brief) break;
            sim->run(t0 + 0.5);
            look(1, t0 + 0.5);
            break;
        case 3:
            sim->run(t0 + (c.brief ? 0.5 : 1.25), 1e-3, 0.5);
            look(c.brief ? 1 : 2, t0 + 1.25);
            break;
        default:
            h->shrink_to_fit();
            for (auto& s : b->sig)
            {
                const auto& m = (*h)[s];
                for (int i = 0; i < m.rows(); i++)
                    for (int j = 0; j < m.cols(); j++) seen.push_back(m(i, j));
                seen.push_back(double(s.impl().name().str().size()));
            }
            for (auto& bl : b->blocks) seen.push_back(double(bl->full_name().str().size()));
        }
    }
    void all()
    {
        for (int k = 0; k < NOps; k++) op(k);
    }
};
// what the simulation gives when it is alone
static const std::vector<double>& alone(const Cfg& c)
{
    static std::map<Cfg, std::vector<double>> cache;
    auto it = cache.find(c);
    if (it == cache.end())
    {
        mc::Mute quiet;
        Task t(c);
        t.all();
        it = cache.emplace(c, t.seen).first;
        // the values are those of the diagram
        RefSim r(t.d, c.stp);
        double t0 = c.var ? -1 : 0;
        r.init(t0);
        if (!c.brief) r.run(t0 + 0.5);
        r.run(t0 + (c.brief ? 0.5 : 1.25), 1e-3, 0.5);
        compare(*t.b, r, "alone");
    }
    return it->second;
}
static void judge(const Task& t, const std::string& what)
{
    auto& want = alone(t.c);
    MC_CHECK(t.seen.size() == want.size(), what << ": " << t.seen.size() << " values, alone " << want.size());
    for (std::size_t i = 0; i < want.size(); i++)
        if (!mc::close(t.seen[i], want[i], 1e-12))
            MC_FAIL(what << ": value " << i << " is " << t.seen[i] << ", alone it is " << want[i] << "; " << t.d.text() << engine_name(t.c.eng) << "/" << stepper_name(t.c.stp));
    mc::ex.transition(want.size());
    for (std::size_t i = 0; i < want.size(); i += 7) mc::ex.observe(t.seen[i]);
}
static void pair_cfg(Cfg& a, Cfg& b, bool small)
{
    a.id  = choose(3);
    b.id  = small || choose(2) ? a.id : (a.id + 1) % 3;
    a.var = 0;
    b.var = 1;
    a.eng = choose(3);
    b.eng = small ? (choose(2) ? a.eng : (a.eng + 1) % 3) : choose(3);
    bool all = small || mc::ex.thorough;
    a.stp    = small ? 1 + choose(2) : all ? choose(3) : (a.eng + b.eng + 1) % 3;
    b.stp    = small || choose(2) ? a.stp : (a.stp + 1) % 3;
}
// calls in all orders
static void alternating()
{
    Cfg ca, cb;
    pair_cfg(ca, cb, false);
    alone(ca);
    alone(cb);
    Task a(ca), b(cb);
    int i = 0, j = 0;
    std::string txt;
    while (i < Task::NOps || j < Task::NOps)
    {
        bool first = j >= Task::NOps ? true : i >= Task::NOps ? false : choose(2) == 0;
        txt += first ? "a" : "b";
        if (first)
            a.op(i++);
        else
            b.op(j++);
    }
    MC_LOG("calls in the order " << txt);
    judge(a, "calls in the order " + txt + ", a");
    judge(b, "calls in the order " + txt + ", b");
    for (char c : txt) mc::ex.observe(uint64_t(c));
}
// one inside the callback of the other
static void nested()
{
    Cfg ca, cb;
    pair_cfg(ca, cb, false);
    int at   = choose(14);
    int mode = choose(3); // the whole of the other one, its next call, its next call again and again
    alone(ca);
    alone(cb);
    Task a(ca), b(cb);
    int n = 0, k = 0;
    a.hook = [&]
    {
        if (n++ < at) return;
        if (mode == 0 && n == at + 1) b.all();
        if (mode == 1 && n == at + 1)
        {
            b.op(k++);
            b.op(k++);
            b.op(k++);
        }
        if (mode == 2 && k < Task::NOps) b.op(k++);
    };
    a.all();
    if (mode == 0 && n <= at) throw mc::Discard{};
    if (mode)
        while (k < Task::NOps) b.op(k++);
    MC_LOG("inside callback " << at << " mode " << mode);
    judge(a, "with another simulation inside its callback");
    judge(b, "inside another simulation's callback");
    mc::ex.observe(uint64_t(at * 3 + mode));
}
// two threads
static int run_threads(Task& a, Task& b, int level, const std::vector<int>& turns)
{
    using namespace sched;
    done0 = done1 = 0;
    npoints[0] = npoints[1] = 0;
    nsw                     = int(turns.size());
    for (std::size_t i = 0; i < turns.size(); i++) sw[i] = turns[i];
    cur  = 0;
    left = turns.empty() ? INT_MAX : turns[0];
    std::string err[2];
    sched::level = level;
    turn         = 0;
    auto body    = [&](int id, Task& t)
    {
        me = id;
        wait_for_turn(id);
        try
        {
            t.all();
        }
        catch (const mc::Violation& v)
        {
            err[id] = v.msg;
        }
        catch (const std::exception& e)
        {
            err[id] = std::string("unexpected exception: ") + e.what();
        }
        me = -1;
        finish(id);
    };
    std::thread t0([&] { body(0, a); }), t1([&] { body(1, b); });
    t0.join();
    t1.join();
    sched::level = 0;
    for (auto& e : err)
        if (!e.empty()) MC_FAIL("thread " << (&e - err) << ", turns " << mc::str(turns) << ": " << e);
    return npoints[0];
}
static int count_points(const Cfg& ca, const Cfg& cb, int level)
{
    static std::map<std::pair<std::pair<Cfg, Cfg>, int>, int> cache;
    auto key = std::make_pair(std::make_pair(ca, cb), level);
    auto it  = cache.find(key);
    if (it != cache.end()) return it->second;
    Task a(ca), b(cb);
    run_threads(a, b, level, {}); // warm up: what is initialised once per process
    Task a2(ca), b2(cb);
    return cache[key] = run_threads(a2, b2, level, {});
}
static void threads(int level, int preemptions, bool small)
{
    Cfg ca, cb;
    if (small)
    {
        int id = choose(3);
        ca     = Cfg{id, 0, mc::ex.thorough ? choose(3) : (id + 2) % 3, 0, 1};
        cb     = ca;
        cb.var = 1;
    }
    else
        pair_cfg(ca, cb, true);
    alone(ca);
    alone(cb);
    int n = count_points(ca, cb, level);
    if (level == 2 && n < 50) MC_FAIL("harness: no scheduling points");
    std::vector<int> turns;
    for (int i = 0; i < preemptions; i++)
    {
        int max = level == 1 ? std::min(n, 9) + 1 : n;
        turns.push_back(level == 1 ? choose(max) : i == 0 ? choose(max) : choose(8) * std::max(1, n / 8));
    }
    Task a(ca), b(cb);
    run_threads(a, b, level, turns);
    MC_LOG("turns " << mc::str(turns) << " of " << n << (level == 1 ? " callbacks" : " function entries"));
    judge(a, "on a thread, turns " + mc::str(turns) + ", first simulation");
    judge(b, "on a thread, turns " + mc::str(turns) + ", second simulation");
    for (int t : turns) mc::ex.observe(uint64_t(t));
}
int main(int argc, char** argv)
{
#if defined(POINTS)
#if defined(__SANITIZE_THREAD__)
    return mc::run_main(argc, argv,
                        {{"threads, switched at callbacks", [] { threads(1, mc::ex.thorough ? 2 : 1, false); }},
                         {"threads, switched at function entries", [] { threads(2, 1, true); }, 2}});
#else
    return mc::run_main(argc, argv,
                        {{"threads, switched at callbacks", [] { threads(1, mc::ex.thorough ? 4 : 2, false); }},
                         {"threads, switched at function entries", [] { threads(2, 1, true); }},
                         {"threads, switched at function entries, long runs", [] { threads(2, 1, false); }, 2},
                         {"threads, switched twice at function entries", [] { threads(2, 2, true); }, 2}});
#endif
#else
    return mc::run_main(argc, argv, {{"alternating calls", alternating}, {"nested", nested}});
#endif
}
