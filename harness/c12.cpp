// C12: arithmetic, source and function blocks compute their formula.
#include "drive.hpp"
using namespace ref;

static const double inf = INFINITY, nan_ = std::nan("");
// equal up to the rounding of a few operations on values of the given magnitude
static bool same(double a, double b, double mag)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= 1e-13 * mag + 1e-321;
}
static double mag_of(const Node& n, const RefSim& r, std::size_t e)
{
    double m = std::fabs(r.val[n.out[0]].v[e]);
    if (n.k == KAdd || n.k == KSub || n.k == KSo || n.k == KFunc || n.k == KSiso)
    {
        for (int s : n.in)
            for (double x : r.val[s].v)
                if (std::isfinite(x)) m = std::max(m, std::fabs(x) * 8);
        if (n.k == KAdd && std::isfinite(n.p.v[0])) m = std::max(m, std::fabs(n.p.v[std::min(e, n.p.v.size() - 1)]));
        if (n.k != KAdd && n.k != KSub) m += 100;
    }
    return m;
}
// all blocks of the diagram against the formula, evaluated at several times, with the inputs of the table
static void judge(Diagram& d, const std::vector<double>& times, int eng, bool signs)
{
    RefSim r(d, SEuler);
    auto b   = build(d);
    auto sim = make_engine(eng, b->model(), b->inputs(), nullptr);
    for (std::size_t k = 0; k < times.size(); k++)
    {
        if (k == 0)
        {
            r.init(times[0]);
            sim->init(times[0]);
        }
        else
        {
            r.run(times[k]);
            sim->run(times[k]);
        }
        for (std::size_t i = 0; i < d.nodes.size(); i++)
        {
            const Node& n = d.nodes[i];
            for (int o : n.out)
            {
                MC_CHECK(assigned(b->sig[o]), "output x" << o << " has no value; " << d.text());
                Val v = read(b->sig[o]);
                MC_CHECK(v.v.size() == r.val[o].v.size(), "output x" << o << " has length " << v.v.size() << "; " << d.text());
                for (std::size_t e = 0; e < v.v.size(); e++)
                {
                    double x = r.val[o].v[e];
                    MC_CHECK(same(v.v[e], x, mag_of(n, r, std::min(e, r.val[n.out[0]].v.size() - 1))), kind_name(n.k) << ", evaluation " << k << ": element " << e << " of x" << o << " is " << v.v[e] << ", expected " << x << "; " << d.text());
                    if (signs && x == 0) MC_CHECK(std::signbit(x) == std::signbit(v.v[e]), kind_name(n.k) << ": wrong sign of zero; " << d.text());
                    mc::ex.observe(x);
                }
            }
        }
    }
}
static std::function<bool(int, double, Val&)> table(const Diagram& d, std::vector<std::vector<Val>> t)
{
    (void)d;
    return [t](int s, double time, Val& v)
    {
        v = t[std::size_t(time)][s];
        return true;
    };
}
static const std::vector<double> specials{0.0, -0.0, 1, -2.5, 1e-310, 5e-324, 1e308, -1e308, 1e-200, inf, -inf, nan_, 1. / 3};

// one and two operands, all special values, twice in a row
static void binary_specials()
{
    double a = pick(specials), c = pick(specials);
    int k   = choose(3);
    int eng = choose(3);
    Diagram d;
    int x = d.input(0), y = d.input(1);
    d.input_fn = table(d, {{Val(a), Val(c)}, {Val(c), Val(a)}, {Val(k == 0 ? 1.5 : a), Val(k == 1 ? 2.5 : c)}});
    d.add(KSub, {x, y});
    d.add(KDiv, {x, y});
    d.add(KPipe, {x});
    d.add(KGain, {x}, Val(), a);
    d.add(KGain, {y}, Val(), k == 2 ? c : -1.5);
    d.add(KAdd, {x}, Val(c));
    d.add(KMul, {x}, Val(c));
    d.add(KMul, {x, x}, Val(1));
    d.add(KSub, {x, x});
    d.add(KDiv, {y, y});
    d.add(KConst, {}, Val(a));
    MC_LOG("a=" << a << " b=" << c);
    judge(d, {0, 1, 2}, eng, true);
}
// sums and products of many inputs; repeated ones
static void arities()
{
    int n   = pick({1, 2, 3, 5, 10, 12, 16, 33});
    int ini = choose(3);
    int sp  = choose(8); // where a special value is
    int spv = choose(4);
    int rep = choose(3); // inputs repeat
    int eng = choose(3);
    bool arr = choose(2);
    int size = arr ? 5 : 1;
    Ty ty    = arr ? TA : TS;
    Diagram d;
    std::vector<int> in;
    std::vector<Val> v1, v2;
    int distinct = rep == 0 ? n : rep == 1 ? (n + 1) / 2 : 1;
    for (int i = 0; i < distinct; i++)
    {
        d.input(i, ty, size);
        Val a = zero(ty, size), b = a;
        for (int e = 0; e < size; e++)
        {
            a.v[e] = (i % 2 ? -1 : 1) * (0.5 + 0.125 * ((i * 7 + e) % 11));
            b.v[e] = 1.25 - 0.01 * i * (e + 1);
        }
        if (i == sp * 4 && spv) a.v[size - 1] = spv == 1 ? inf : spv == 2 ? nan_ : 0;
        v1.push_back(a);
        v2.push_back(b);
    }
    d.input_fn = table(d, {v1, v2, v1});
    for (int i = 0; i < n; i++) in.push_back(i % distinct);
    Val p = zero(ty, size);
    for (int e = 0; e < size; e++) p.v[e] = ini == 0 ? 0 : ini == 1 ? 1 + e : -0.75;
    Val q = p;
    for (auto& e : q.v) e = ini == 0 ? 1 : e;
    d.add(KAdd, in, p, 0, 0, ty, size);
    d.add(KMul, in, q, 0, 0, ty, size);
    d.add(KSo, in, Val(), 0, 1, ty, size);
    Node f;
    f.k   = KFunc;
    f.in  = in;
    f.out = {d.sig(), d.sig(TA, 3), d.sig()};
    d.nodes.push_back(f);
    MC_LOG(n << " inputs, " << distinct << " distinct, special value " << spv << " at " << sp * 4);
    judge(d, {0, 1, 2}, eng, false);
}
// array lengths; every element differs
static void lengths()
{
    int size = pick({1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 64, 1000});
    int spv  = choose(6);
    int at   = choose(3);
    int eng  = choose(3);
    Diagram d;
    int x = d.input(0, TA, size), y = d.input(1, TA, size);
    Val a = zero(TA, size), b = a, c = a;
    for (int e = 0; e < size; e++)
    {
        a.v[e] = 1.5 * e - 3;
        b.v[e] = 7 - e * 0.75;
        c.v[e] = e % 2 ? 1e-3 * e : -5;
    }
    static const std::vector<double> s{1, inf, -inf, nan_, 1e308, -0.0};
    int pos  = at == 0 ? 0 : at == 1 ? size / 2 : size - 1;
    a.v[pos] = s[spv];
    d.input_fn = table(d, {{a, b}, {b, c}, {c, a}});
    d.add(KSub, {x, y}, Val(), 0, 0, TA, size);
    d.add(KDiv, {x, y}, Val(), 0, 0, TA, size);
    d.add(KPipe, {x}, Val(), 0, 0, TA, size);
    d.add(KGain, {x}, Val(), -0.5, 0, TA, size);
    d.add(KAdd, {x, y}, c, 0, 0, TA, size);
    d.add(KMul, {x, y}, b, 0, 0, TA, size);
    d.add(KConst, {}, a, 0, 0, TA, size);
    d.add(KSiso, {x}, Val(), 0, 0, TA, size);
    d.add(KSource, {}, Val(), 0, 1, TA, size);
    d.add(KSo, {x, y}, Val(), 0, 0, TA, size);
    d.add(KSub, {x, x}, Val(), 0, 0, TA, size);
    MC_LOG("length " << size << " special value " << s[spv] << " at " << pos);
    judge(d, {0, 1, 2}, eng, false);
}
static void integers()
{
    static const std::vector<int> vs{0, 1, -1, 7, -46340, 46340, 1 << 30, INT32_MAX, INT32_MIN};
    int a = pick(vs), c = pick(vs);
    int eng = choose(3);
    Diagram d;
    int x = d.input(0, TI), y = d.input(1, TI);
    d.input_fn = table(d, {{Val(TI, {double(a)}), Val(TI, {double(c)})}, {Val(TI, {5}), Val(TI, {-3})}, {Val(TI, {double(a)}), Val(TI, {double(c)})}});
    auto fits = [](double v) { return v >= INT32_MIN && v <= INT32_MAX; };
    d.add(KPipe, {x}, Val(), 0, 0, TI);
    d.add(KConst, {}, Val(TI, {double(c)}), 0, 0, TI);
    if (fits(double(a) - c)) d.add(KSub, {x, y}, Val(), 0, 0, TI);
    if (fits(double(a) + c))
    {
        d.add(KAdd, {x, y}, Val(TI, {0}), 0, 0, TI);
        if (fits(double(a) + 4)) d.add(KAdd, {x}, Val(TI, {double(c) < 0 && a > 0 ? -1.0 : 1.0}), 0, 0, TI);
    }
    if (fits(double(a) * c)) d.add(KMul, {x, y}, Val(TI, {1}), 0, 0, TI);
    if (c != 0 && !(a == INT32_MIN && c == -1)) d.add(KDiv, {x, y}, Val(), 0, 0, TI);
    if (fits(double(a) * 3)) d.add(KGain, {x}, Val(), 3, 0, TI);
    if (fits(double(a) * -1)) d.add(KGain, {x}, Val(), -1, 0, TI);
    d.add(KSource, {}, Val(), 0, 1, TI);
    Diagram e;
    (void)e;
    int p = d.add(KSource, {}, Val(), 0, 1, TB);
    d.add(KPipe, {p}, Val(), 0, 0, TB);
    d.add(KConst, {}, Val(TB, {double(a & 1)}), 0, 0, TB);
    MC_LOG("integers " << a << ", " << c);
    // the reference computes in double: keep to the values for which that is exact
    judge(d, {0, 1, 2}, eng, false);
}
// sources and functions see the time of the evaluation and the inputs in order; several outputs of all types
static void functions()
{
    int ni  = choose(4);
    int no  = choose(4) + 1;
    int fn  = choose(6);
    int eng = choose(3);
    int ord = choose(2);
    int big = choose(2);
    const std::vector<Sig> tys{{TS, 1}, {TA, 3}, {TI, 1}, {TB, 1}, {TA, 1}};
    Diagram d;
    std::vector<int> in;
    std::vector<std::vector<Val>> tab(3);
    for (int i = 0; i < ni; i++)
    {
        const Sig& s = tys[(i + fn) % 5];
        in.push_back(d.input(i, s.ty, s.size));
        for (int k = 0; k < 3; k++)
        {
            Val v = zero(s.ty, s.size);
            for (auto& e : v.v) e = s.ty == TB ? (i + k) % 2 : 2 + i - 3 * k;
            tab[k].push_back(v);
        }
    }
    if (ord) std::reverse(in.begin(), in.end());
    d.input_fn = table(d, tab);
    for (int q = 0; q < 2; q++)
    {
        Node f;
        f.k  = q ? KSources : KFunc;
        f.fn = fn + q;
        if (!q) f.in = in;
        for (int o = 0; o < (big ? 12 : no); o++)
        {
            const Sig& s = tys[(o + 2 * q + fn) % 5];
            f.out.push_back(d.sig(s.ty, s.size));
        }
        d.nodes.push_back(f);
    }
    d.add(KSo, in, Val(), 0, fn);
    d.add(KSo, in, Val(), 0, fn, TA, 4);
    d.add(KSource, {}, Val(), 0, fn);
    d.add(KSource, {}, Val(), 0, fn, TA, 2);
    d.add(KSource, {}, Val(), 0, fn, TI);
    d.add(KSource, {}, Val(), 0, fn, TB);
    for (int s : in)
        if (d.sigs[s].ty == TS) d.add(KSiso, {s}, Val(), 0, fn);
    MC_LOG(d.text());
    judge(d, {0, 1, 2}, eng, false);
}
// times: negative, tiny, huge; the function blocks get exactly the time of the evaluation
static void times()
{
    double t0 = pick({0.0, -1e9, 1e-9, 1e15, -0.1});
    double dt = pick({1.0, 0.1, 1e6});
    int eng   = choose(3);
    using namespace pooya;
    Submodel m(nullptr, "m");
    ScalarSignal a("a"), b("b"), c("c"), e("e"), g("g");
    std::vector<double> seen;
    Source s([&](double t) { return t; }, &m);
    s.connect({}, {a});
    SISOFunction si([&](double t, double x) { return t - x; }, &m);
    si.connect({a}, {b});
    SOFunction so([&](double t, const Bus&) { return t; }, &m);
    so.connect({a, b}, {c});
    Function f([&](double t, const Bus&, const Bus& o) { ScalarSignal(o.at(0)) = t; }, &m);
    f.connect({a}, {e});
    Sources ss([&](const Bus& o, double t) { ScalarSignal(o.at(0)) = t; }, &m);
    ss.connect({}, {g});
    auto sim = make_engine(eng, m, nullptr, nullptr);
    double t = t0;
    sim->init(t);
    for (int i = 0; i < 4; i++)
    {
        MC_CHECK(a == t && b == 0 && c == t && e == t && g == t, "at time " << t << " the blocks saw " << double(a) << " " << double(b) << " " << double(c) << " " << double(e) << " " << double(g));
        mc::ex.observe(t);
        t += dt;
        sim->run(t);
    }
}
// functions that depend on variables of the program: each evaluation asks them
static void parameters()
{
    int eng  = choose(3);
    int how  = choose(3); // the call repeated, initialised again, another simulator
    double t = pick({0.0, 1.0, -0.5});
    std::vector<double> ks;
    for (int i = 0; i < 3; i++) ks.push_back(pick({1.0, -2.0, 0.5}));
    using namespace pooya;
    double k = 0;
    Submodel m(nullptr, "m");
    ScalarSignal one("one"), a("a"), b("b"), c("c"), e("e"), g("g");
    IntSignal i("i");
    BoolSignal l("l");
    ArraySignal r(std::size_t(2), "r");
    Const con(1.0, &m);
    con.connect({}, {one});
    Source s([&](double t) { return t + k; }, &m);
    s.connect({}, {a});
    SourceT<int> si([&](double) { return int(4 * k); }, &m);
    si.connect({}, {i});
    SourceT<bool> sb([&](double) { return k > 0; }, &m);
    sb.connect({}, {l});
    SourceA sa([&](double) { Array v(2); v << k, 2 * k; return v; }, &m);
    sa.connect({}, {r});
    SISOFunction f1([&](double, double x) { return k * x; }, &m);
    f1.connect({one}, {b});
    SOFunction f2([&](double, const Bus&) { return 3 * k; }, &m);
    f2.connect({one}, {c});
    Function f3([&](double, const Bus&, const Bus& o) { ScalarSignal(o.at(0)) = 5 * k; }, &m);
    f3.connect({one}, {e});
    Sources ss([&](const Bus& o, double) { ScalarSignal(o.at(0)) = 7 * k; }, &m);
    ss.connect({}, {g});
    auto sim = make_engine(eng, m, nullptr, nullptr);
    for (std::size_t n = 0; n < ks.size(); n++)
    {
        k = ks[n];
        if (n == 0)
            sim->init(t);
        else if (how == 0)
            sim->run(t);
        else if (how == 1)
            sim->init(t);
        else
        {
            sim = make_engine(eng, m, nullptr, nullptr);
            sim->run(t);
        }
        MC_CHECK(a == t + k && b == k && c == 3 * k && e == 5 * k && g == 7 * k && i == int(4 * k) && l == (k > 0) && r->get_value()(0) == k && r->get_value()(1) == 2 * k,
                 "parameter " << k << " after " << mc::str(ks) << " at " << t << ": the blocks gave " << double(a) << " " << double(b) << " " << double(c) << " " << double(e) << " " << double(g) << " " << int(i) << " " << bool(l) << " " << r->get_value()(0));
        mc::ex.observe(k);
    }
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"special values", binary_specials},
                         {"numbers of inputs", arities},
                         {"array lengths", lengths},
                         {"integers", integers},
                         {"functions", functions},
                         {"times", times},
                         {"parameters", parameters}});
}
