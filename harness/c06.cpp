// C06: step control.  A scripted stepper gives every sequence of answers; an independent monitor judges the attempts.
#include "ref.hpp"
using namespace ref;

struct Attempt
{
    double t0, t1, new_h;
    std::vector<double> v0, v1;
};
struct Script : pooya::StepperBase
{
    std::function<double(int, double)> answer; // (attempt number, length)
    std::vector<Attempt> log;
    int count{0};
    bool extra{false};
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        Attempt a{t0, t1, 0, from_array(v0).v, {}};
        if (count > 20000) MC_FAIL("the run does not end: more than 20000 attempts");
        if (extra)
        {
            Array junk = v0 * 3 + 1;
            cb(t1, junk);
            cb(0.5 * (t0 + t1), v0);
        }
        Array k = cb(t0, v0);
        v1      = v0 + (t1 - t0) * k;
        a.v1    = from_array(v1).v;
        new_h = a.new_h = answer(count++, t1 - t0);
        log.push_back(a);
    }
};
struct Told
{
    double t;
    double x;
};
struct Probe : pooya::Leaf
{
    std::vector<Told> told;
    pooya::ScalarSignal in{"p"};
    Probe(pooya::Submodel* p, const char* n) : pooya::Leaf(p, n, 1, 0) {}
    bool connect(const pooya::Bus& i, const pooya::Bus& o) override
    {
        if (!pooya::Leaf::connect(i, o)) return false;
        in.reset(i.at(std::size_t(0)));
        return true;
    }
    void post_step(double t) override { told.push_back({t, in}); }
};
struct Limits
{
    double hmin, hmax;
};

// judges the attempts of one run from `from` to `to`
static void judge(const Script& s, std::size_t first, double from, double to, Limits L, std::vector<double>& ends, const std::vector<double>& start_state, std::vector<double>& end_state, const std::string& w)
{
    auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)); };
    double t  = from, expect = -1;
    bool force = false;
    std::vector<double> v = start_state;
    MC_CHECK(s.log.size() > first, w << ": no step was made");
    for (std::size_t k = first; k < s.log.size(); k++)
    {
        const Attempt& a = s.log[k];
        double h         = a.t1 - a.t0;
        auto text        = [&] { return w + ", attempt " + std::to_string(k - first) + " from " + mc::str(a.t0) + " to " + mc::str(a.t1); };
        MC_CHECK(a.t0 == t, text() << ": starts at the wrong time, expected " << mc::str(t));
        MC_CHECK(h > 0, text() << ": no progress");
        MC_CHECK(a.t1 <= to, text() << ": reaches beyond the requested time " << mc::str(to));
        MC_CHECK(h <= L.hmax * (1 + 1e-12) + 1e-14 * std::fabs(a.t0), text() << ": longer than the maximum " << L.hmax);
        MC_CHECK(a.t0 < to, text() << ": a step after the end");
        if (expect > 0)
        {
            double rest = to - t, res = std::nextafter(std::fabs(t), 1e300) - std::fabs(t);
            MC_CHECK(near(h, std::min(expect, rest)) || std::fabs(h - std::min(expect, rest)) <= res, text() << ": has length " << h << ", expected " << std::min(expect, rest));
        }
        if (!v.empty())
            for (std::size_t i = 0; i < v.size(); i++)
                MC_CHECK(i < a.v0.size() && mc::close(a.v0[i], v[i]), text() << ": starts from state " << mc::str(a.v0) << ", expected " << mc::str(v));
        bool acc = force || a.new_h >= h || h <= L.hmin;
        // lengths that are equal up to the rounding of the times count as equal or as different; what follows tells which
        double ulp = 4e-16 * std::max({std::fabs(a.t0), std::fabs(a.t1), h});
        if (!acc && (std::fabs(a.new_h - h) <= 2 * ulp || std::fabs(h - L.hmin) <= 2 * ulp)) acc = k + 1 == s.log.size() || s.log[k + 1].t0 != a.t0;
        if (!acc && k + 1 < s.log.size()) MC_CHECK(s.log[k + 1].t1 < a.t1, text() << ": rejected, and the retry to " << mc::str(s.log[k + 1].t1) << " is not shorter");
        expect   = std::max(L.hmin, std::min(a.new_h, L.hmax));
        if (acc)
        {
            t     = a.t1;
            v     = a.v1;
            force = false;
            ends.push_back(t);
        }
        else
            force = a.new_h <= L.hmin;
        mc::ex.observe(h);
        mc::ex.state(mc::mix(mc::mix(uint64_t(acc) * 2 + force, uint64_t(a.t0 * 4096)), uint64_t(a.t1 * 4096)));
        if (k + 1 == s.log.size()) MC_CHECK(t == to, text() << ": the run ended at " << mc::str(t) << " instead of " << mc::str(to));
    }
    end_state = v;
}

struct Menu
{
    std::vector<std::function<double(double h, Limits)>> f{
        [](double h, Limits) { return h; },
        [](double h, Limits) { return h / 2; },
        [](double h, Limits) { return 2 * h; },
        [](double, Limits) { return 0.0; },
        [](double, Limits L) { return L.hmin; },
        [](double h, Limits) { return h / 8; },
        [](double, Limits L) { return 64 * L.hmax; },
        [](double h, Limits) { return 0.75 * h; },
        [](double, Limits L) { return L.hmax; },
        [](double, Limits) { return -1.0; },
        [](double, Limits L) { return L.hmin * 1.5; },
    };
};
static Menu menu;

// the model: dx/dt = u(t) - x with u from the input callback, y = 2 x, probes at three depths
struct Model
{
    pooya::Submodel m{nullptr, "m"}, s1{&m, "s1"}, s2{&s1, "s2"};
    pooya::ScalarSignal u{"u"}, x{"x"}, dx{"dx"}, z{"z"};
    pooya::ArraySignal ax{2, "ax"}, adx{2, "adx"};
    pooya::Subtract sub{&s1, "sub"};
    pooya::Integrator in{2.0, nullptr, "in"};
    pooya::IntegratorA ain{Array::Constant(2, 1.0), nullptr, "ain"};
    pooya::GainA ga{-0.5, nullptr, "ga"};
    pooya::Memory mem{7.0, &m, "mem"};
    Probe p0{&m, "p0"}, p1{&s1, "p1"}, p2{&s2, "p2"};
    Script st;
    std::unique_ptr<pooya::SimulatorBase> sim;
    bool states, arrays;
    Model(int engine, bool states_, bool arrays_ = false) : states(states_), arrays(arrays_)
    {
        sub.connect({u, states ? x : u}, {dx});
        if (states) s2.add_block(in, {dx}, {x});
        if (arrays)
        {
            s1.add_block(ga, {ax}, {adx});
            s2.add_block(ain, {adx}, {ax});
        }
        mem.connect({dx}, {z});
        p0.connect({dx}, {});
        p1.connect({states ? x : dx}, {});
        p2.connect({z}, {});
        sim = make_engine(engine, m, [this](pooya::Block&, double t) { u = 1 + t * t; }, &st);
    }
    void check_told(const std::vector<double>& times, const std::string& w)
    {
        int k = 0;
        for (Probe* p : {&p0, &p1, &p2})
        {
            std::vector<double> tt;
            for (auto& e : p->told) tt.push_back(e.t);
            MC_CHECK(tt == times, w << ": block p" << k << " was told about steps ending at " << mc::str(tt) << ", accepted steps end at " << mc::str(times));
            k++;
        }
    }
};
struct Run
{
    double t;
    Limits L;
};
static void simulate(int engine, double t0, const std::vector<Run>& runs, const std::function<double(int, double, Limits)>& ans, bool expl, bool extra = false, bool arrays = false)
{
    Model m(engine, true, arrays);
    m.st.extra = extra;
    Limits cur{};
    m.st.answer = [&](int k, double h) { return ans(k, h, cur); };
    if (expl)
        m.sim->init(t0);
    else
        m.sim->run(t0);
    std::vector<double> ends{t0};
    m.check_told(ends, "init");
    std::size_t nstates = arrays ? 3 : 1;
    double t = t0;
    std::vector<double> v = arrays ? std::vector<double>{} : std::vector<double>{2.0}, e;
    for (auto& r : runs)
    {
        std::size_t first = m.st.log.size();
        cur               = r.L;
        std::string w     = std::string(engine_name(engine)) + ", run from " + mc::str(t) + " to " + mc::str(r.t) + " limits " + mc::str(r.L.hmin) + ".." + mc::str(r.L.hmax);
        std::size_t e0    = ends.size();
        m.sim->run(r.t, r.L.hmin, r.L.hmax);
        judge(m.st, first, t, r.t, r.L, ends, v, e, w);
        m.check_told(ends, w);
        MC_CHECK(e.size() == nstates, w << ": " << e.size() << " states");
        if (!arrays)
        {
            // the values at the accepted steps
            std::size_t k = first;
            for (std::size_t i = e0; i < ends.size(); i++)
            {
                std::size_t last = k;
                while (k < m.st.log.size() && m.st.log[k].t1 != ends[i]) k++;
                for (last = k; k < m.st.log.size() && m.st.log[k].t1 == ends[i]; k++) last = k;
                double xs = m.st.log[last].v1[0];
                MC_CHECK(mc::close(m.p1.told[i].x, xs), w << ": at the accepted step to " << ends[i] << " the state is " << m.p1.told[i].x << ", expected " << xs);
                MC_CHECK(mc::close(m.p0.told[i].x, 1 + ends[i] * ends[i] - xs), w << ": at the accepted step to " << ends[i] << " the derivative signal is " << m.p0.told[i].x);
                MC_CHECK(mc::close(m.p2.told[i].x, i ? m.p0.told[i - 1].x : 7.0), w << ": a memory at the accepted step to " << ends[i] << " shows " << m.p2.told[i].x);
                k = last + 1;
            }
            MC_CHECK(mc::close(m.x, e[0]), w << ": final state " << double(m.x) << ", expected " << e[0]);
        }
        else
        {
            // (1 + 2 states in an order of the library's choosing)
            std::multiset<double> a{double(m.x), m.ax[0], m.ax[1]}, b(e.begin(), e.end());
            auto i = a.begin();
            for (double q : b) MC_CHECK(mc::close(q, *i++), w << ": final states differ from the last accepted step");
        }
        v = e;
        t = r.t;
    }
}
static void answers()
{
    Limits L = pick(std::vector<Limits>{{0.0625, 0.5}, {0.25, 1}, {0.125, 0.15625}, {1. / 1024, 8}});
    int n    = mc::ex.thorough ? 5 : 4;
    std::vector<int> a;
    for (int i = 0; i < n; i++) a.push_back(choose(int(menu.f.size())));
    int eng   = mc::ex.thorough ? choose(3) : (a[0] + a[1] + a[2]) % 3;
    double t0 = mc::ex.thorough ? pick({0.0, -1.5}) : (a[n - 1] % 2 ? 0.0 : -1.5);
    MC_LOG("limits " << L.hmin << ".." << L.hmax << ", answers " << mc::str(a));
    simulate(eng, t0, {{t0 + 1, L}, {t0 + 1.375, L}}, [&](int k, double h, Limits l) { return k < n ? menu.f[a[k]](h, l) : 2 * h; }, a[0] % 2, a[1] % 2);
}
// scripts repeated for a long time
static void periodic()
{
    int p = choose(mc::ex.thorough ? 4 : 3) + 1;
    std::vector<int> a;
    for (int i = 0; i < p; i++) a.push_back(choose(int(menu.f.size())));
    Limits L = pick(std::vector<Limits>{{0.0625, 0.5}, {0.015625, 2}});
    int eng  = choose(3);
    int len  = mc::ex.thorough ? pick({7, 60, 400}) : pick({7, 60});
    MC_LOG("answers " << mc::str(a) << " repeated");
    simulate(eng, 0.5, {{4.5, L}, {4.75, L}, {8.0, L}}, [&](int k, double h, Limits l) { return k < len ? menu.f[a[k % p]](h, l) : 2 * h; }, true);
}
// run sequences of all lengths, limits changing between the calls, times that are not dyadic
static void run_sequences()
{
    static const std::vector<double> len{1, 0.3, 1e-5, 2.7, 1. / 3};
    static const std::vector<Limits> lim{{0.001, 1}, {0.01, 0.1}, {0.2, 0.3}, {0.05, 10}};
    int n = mc::ex.thorough ? 4 : 3;
    double t0 = pick({0.0, -0.7, 1000.1});
    std::vector<Run> r;
    double t = t0;
    int shift = choose(4);
    for (int i = 0; i < n; i++)
    {
        t += pick(len);
        r.push_back({t, lim[(i + shift) % lim.size()]});
    }
    int a = choose(3);
    int eng = choose(3);
    MC_LOG("t0=" << t0 << " runs to " << r[0].t << ".." << t << ", answers kind " << a);
    simulate(eng, t0, r, [&](int k, double h, Limits) { return a == 0 ? h : a == 1 ? (k % 3 == 1 ? h / 2.3 : 1.7 * h) : (k % 2 ? 3 * h : 0.4 * h); }, a != 1, false);
}
// steppers that recommend lengths of their own choosing, not related to the length just tried; times that are not dyadic
static void absolute_answers()
{
    static const std::vector<double> ans{0.1, 0.3, 0.05, 0.7, 1. / 3, 0.02, 1.1};
    static const std::vector<Limits> lim{{0.02, 0.1}, {0.1, 1}, {0.05, 0.3}, {0.3, 0.7}, {1. / 3, 1.1}};
    double t0 = pick({0.0, 0.3, -0.7, 12.7, 1000.1});
    Limits L  = pick(lim);
    std::vector<double> a;
    int n = mc::ex.thorough ? 4 : 2;
    for (int i = 0; i < n; i++) a.push_back(pick(ans));
    double d = pick({0.35, 1.0, 3.3});
    int eng  = (int(a[0] * 100) + int(d)) % 3;
    MC_LOG("t0=" << t0 << " length " << d << " limits " << L.hmin << ".." << L.hmax << ", recommended lengths " << mc::str(a) << " in turn");
    simulate(eng, t0, {{t0 + d, L}, {t0 + d + 0.7, L}}, [&](int k, double, Limits) { return a[k % a.size()]; }, true);
}
// one step across zero, where end minus start is not exact: the next step starts at the end all the same
static void across_zero()
{
    double a = pick({0.1, 0.2, 0.3, 0.7, 1. / 3, 1.1, 1e-3, 1e-17}), b = pick({0.1, 0.2, 0.3, 0.4, 0.7, 1. / 3, 0.9, 1e-5, 1e-17});
    double c = pick({0.1, 0.25, 1. / 7});
    int ans = choose(3), eng = choose(3);
    MC_LOG("from " << -a << " to " << b << " and on");
    simulate(eng, -a, {{b, {1e-3, 5}}, {b + c, {1e-3, 5}}, {b + 7 * c, {1e-3, c}}}, [&](int k, double h, Limits) { return ans == 0 ? h : ans == 1 ? (k == 0 ? 0.3 * h : 2 * h) : 10.0; }, true);
}
// limits and recommendations about as long as, or shorter than, the distance between two numbers at that time
static void resolution()
{
    double t0   = pick({1.0, -1.0, 1e6, 1.7e9, -3e9, 1e15});
    double ulp  = std::nextafter(t0, 1e300) - t0;
    double lo   = pick({0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 3.0});
    double hi   = pick({1.1, 4.0, 1000.0});
    int len     = pick({1, 2, 3, 5, 16});
    int a = choose(6), eng = choose(3);
    if (len > 3 && lo * hi < 1) throw mc::Discard{};
    Limits L{lo * ulp, lo * hi * ulp};
    MC_LOG("t0=" << t0 << " limits " << lo << " and " << lo * hi << " times the distance of numbers, " << len << " numbers on, answers " << a);
    simulate(eng, t0, {{t0 + len * ulp, L}, {t0 + (len + 3) * ulp, L}}, [&](int k, double h, Limits l)
             { return a == 0 ? h : a == 1 ? h / 2 : a == 2 ? 0 : a == 3 ? 0.6 * h : a == 4 ? (k % 2 ? 2 * h : h / 3) : l.hmin * 1.2; }, true);
}
static void mixed_states()
{
    int n = 4;
    std::vector<int> a;
    for (int i = 0; i < n; i++) a.push_back(choose(8));
    int eng = (a[0] + a[1]) % 3;
    MC_LOG("answers " << mc::str(a));
    simulate(eng, -0.25, {{0.75, {0.0625, 0.5}}, {1.0, {0.0625, 1}}}, [&](int k, double h, Limits l) { return k < n ? menu.f[a[k]](h, l) : h; }, true, a[2] % 2, true);
}
// with the default limits
static void defaults()
{
    double t0 = pick({0.0, 2.5, -4.0});
    double d  = pick({0.001, 0.5, 1.0, 1.5, 3.0, 10.25});
    int a     = choose(3);
    int eng   = choose(3);
    Model m(eng, true);
    m.st.answer = [&](int k, double h) { return a == 0 ? h : a == 1 ? (k < 300 ? 0.0 : 4 * h) : (k % 2 ? 4 * h : h / 4); };
    m.sim->init(t0);
    std::vector<double> ends{t0}, v{2.0}, e;
    for (int i = 1; i < 3; i++)
    {
        std::size_t first = m.st.log.size();
        m.sim->run(t0 + i * d);
        judge(m.st, first, t0 + (i - 1) * d, t0 + i * d, {1e-3, 1}, ends, v, e, "default limits");
        m.check_told(ends, "default limits");
        v = e;
    }
}
// without states every run is one evaluation and one step
static void stateless()
{
    int eng = choose(3);
    bool st = choose(2);
    std::vector<double> dts;
    for (int i = 0; i < 3; i++) dts.push_back(pick({0.0, 0.1, 1.0, 25.0}));
    Model m(eng, false);
    if (!st) m.sim = make_engine(eng, m.m, [&](pooya::Block&, double t) { m.u = 1 + t * t; }, nullptr);
    m.sim->init(1);
    std::vector<double> ends{1};
    double t = 1;
    for (double d : dts)
    {
        t += d;
        m.sim->run(t);
        ends.push_back(t);
        m.check_told(ends, "model without states");
        MC_CHECK(m.st.log.empty(), "a stepper was called without states");
        mc::ex.observe(t);
    }
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"answer sequences", answers},
                         {"periodic answers", periodic},
                         {"run sequences", run_sequences},
                         {"absolute answers", absolute_answers},
                         {"across zero", across_zero},
                         {"resolution of time", resolution},
                         {"scalar and array states", mixed_states},
                         {"default limits", defaults},
                         {"without states", stateless}});
}
