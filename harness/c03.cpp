// C03: algebraic loops and missing inputs.
#include "drive.hpp"
using namespace ref;

#if defined(NDEBUG)
static const bool debug_build = false;
#else
static const bool debug_build = true;
#endif

static bool remembers(Kind k) { return k == KMem || k == KDelay || k == KDeriv || k == KInteg || k == KTrig; }

// is every unassigned thing a block has to remember?  (then an exception is the right answer)
static bool must_throw(const Diagram& d, const RefSim& r)
{
    for (auto& n : d.nodes)
        if (n.k == KMem || n.k == KDelay || n.k == KDeriv)
        {
            for (int s : n.in)
                if (!r.asg[s]) return true;
            if (!r.asg[n.out[0]]) return true;
        }
    return false;
}
static bool mentions(const std::string& text, const std::string& name)
{
    for (auto p = text.find(name); p != std::string::npos; p = text.find(name, p + 1))
    {
        char c = p + name.size() < text.size() ? text[p + name.size()] : ' ';
        if (!(isalnum((unsigned char)c) || c == '_' || c == '/')) return true;
    }
    return false;
}
static void check_report(const Diagram& d, const Built& b, const std::vector<int>& left, const std::string& out)
{
    if (!debug_build) return;
    std::set<int> l(left.begin(), left.end());
    for (std::size_t i = 0; i < d.nodes.size(); i++)
    {
        std::string nm = b.blocks[i]->full_name().str();
        MC_CHECK(mentions(out, nm) == (l.count(int(i)) > 0),
                 "block " << nm << (l.count(int(i)) ? " cannot be evaluated but is not reported: " : " is evaluated but reported as unprocessed: ") << out << "; " << d.text());
    }
}
// one evaluation at t0 and, for models that remember nothing, further ones with other inputs missing
static void judge(Diagram& d, const BuildOpt& o, const std::vector<double>& times)
{
    for (std::size_t i = 0; i < d.nodes.size(); i++) d.nodes[i].name = "b" + std::to_string(i);
    RefSim probe(d, SEuler);
    probe.begin(times[0]);
    auto left = probe.evaluate(times[0]);
    bool bad  = must_throw(d, probe);
    bool rem  = false;
    for (auto& n : d.nodes) rem = rem || remembers(n.k);
    MC_LOG(d.text() << " not evaluable: " << mc::str(left));
    for (int eng = 0; eng < 3; eng++)
    {
        if (bad && !debug_build) continue; // reading an unassigned signal is caught in debug builds
        auto b = build(d, o);
        pooya::Euler st;
        auto sim = make_engine(eng, b->model(), b->inputs(), &st);
        mc::take_output();
        if (eng == EFast)
        {
            bool threw = mc::throws([&] { sim->init(times[0]); });
            MC_CHECK(threw == (!left.empty() || bad), "the fast simulator " << (threw ? "refused a model that can be evaluated: " : "accepted a model that cannot be evaluated: ") << d.text());
            mc::ex.observe(uint64_t(threw));
            if (threw) continue;
            compare(*b, probe, "fast simulator");
            continue;
        }
        std::string w = engine_name(eng);
        bool threw    = mc::throws([&] { sim->init(times[0]); });
        std::string out = mc::take_output();
        MC_CHECK(threw == bad, w << ": init " << (threw ? "threw: " : "did not throw although an undeterminable value has to be remembered: ") << d.text());
        check_report(d, *b, left, out);
        compare(*b, probe, w + ", init");
        if (rem || threw) continue;
        for (std::size_t k = 1; k < times.size(); k++)
        {
            RefSim r2(d, SEuler);
            r2.begin(times[k]);
            auto left2 = r2.evaluate(times[k]);
            sim->run(times[k]);
            check_report(d, *b, left2, mc::take_output());
            compare(*b, r2, w + ", run(" + mc::str(times[k]) + ")");
        }
    }
}
static void wirings(int n, const std::vector<Kind>& kinds, bool nested)
{
    Diagram d;
    int e = d.input(0), m = d.input(1);
    // e is always there, m never
    d.input_fn = [e](int s, double t, Val& v)
    {
        if (s != e) return false;
        v = Val(2 + t);
        return true;
    };
    if (nested) d.sub_parent = {-1, 0};
    std::vector<int> outs{e};
    if (choose(2)) outs.push_back(m);
    std::vector<int> o;
    for (int i = 0; i < n; i++) o.push_back(d.sig());
    outs.insert(outs.end(), o.begin(), o.end());
    for (int i = 0; i < n; i++)
    {
        Kind k = pick(kinds);
        std::vector<int> in;
        int ni = k == KSub ? 2 : k == KSource ? 0 : 1;
        for (int j = 0; j < ni; j++) in.push_back(pick(outs));
        d.add(k, in, Val(1.5 + i), 2, i, TS, 1, o[i]);
        if (nested) d.nodes.back().parent = choose(2);
    }
    BuildOpt b;
    b.subs = nested ? choose(2) : 0;
    judge(d, b, {0.5, 1});
}
// rings of any length, with something hanging on them, broken or not, in submodels or not, in any rotation
static void rings()
{
    Diagram d;
    int e    = d.input(0);
    int len  = pick({1, 2, 3, 5, 8, 21, 60});
    int brk  = choose(4); // 0: algebraic; 1: a memory; 2: an integrator; 3: a delay or derivative (breaks nothing)
    int pos  = choose(3); // where in the ring
    int tail = choose(3); // blocks depending on the ring
    int free = choose(2); // blocks not depending on it
    int nest = choose(3);
    int rev  = choose(2);
    if (nest) d.sub_parent = nest == 1 ? std::vector<int>{-1, 0} : std::vector<int>{-1, 0, 1};
    int p = pos == 0 ? 0 : pos == 1 ? len / 2 : len - 1;
    std::vector<int> s;
    for (int i = 0; i < len; i++) s.push_back(d.sig());
    for (int i = 0; i < len; i++)
    {
        int in = s[(i + len - 1) % len];
        if (i == p && brk == 1)
            d.add(KMem, {in}, Val(4), 0, 0, TS, 1, s[i]);
        else if (i == p && brk == 2)
            d.add(KInteg, {in}, Val(4), 0, 0, TS, 1, s[i]);
        else if (i == p && brk == 3)
            d.add(KDeriv, {in}, Val(4), 0, 0, TS, 1, s[i]);
        else if (i % 3 == 1)
            d.add(KSub, {in, e}, Val(), 0, 0, TS, 1, s[i]);
        else
            d.add(KSiso, {in}, Val(), 0, 0, TS, 1, s[i]);
        d.nodes.back().parent = i % int(d.sub_parent.size());
    }
    int x = s.back();
    for (int i = 0; i < tail; i++) x = d.add(i ? KPipe : KSub, i ? std::vector<int>{x} : std::vector<int>{e, x});
    x = e;
    for (int i = 0; i < free * 3; i++) x = d.add(KGain, {x}, Val(), 2);
    BuildOpt o;
    if (rev)
        for (int i = int(d.nodes.size()); i-- > 0;) o.order.push_back(i);
    judge(d, o, {0.5, 1});
}
// the inputs provided change from call to call
static void missing_histories()
{
    Diagram d;
    int a = d.input(0), b = d.input(1), c = d.input(2);
    int nt = mc::ex.thorough ? 4 : 3;
    std::vector<int> mask;
    for (int i = 0; i < nt; i++) mask.push_back(choose(8));
    std::vector<double> times;
    for (int i = 0; i < nt; i++) times.push_back(0.5 + i);
    d.input_fn = [=](int s, double t, Val& v)
    {
        int k = int(t);
        if (!(mask[k] >> s & 1)) return false;
        v = Val(10 * s + t);
        return true;
    };
    int x = d.add(KSub, {a, b}), y = d.add(KGain, {b}, Val(), 3);
    Node f;
    f.k  = KFunc;
    f.in = {x, c};
    int o1 = d.sig(), o2 = d.sig(TI);
    f.out = {o1, o2};
    d.nodes.push_back(f);
    d.add(KAdd, {y, a, o1});
    d.add(KPipe, {c});
    d.add(KConst, {}, Val(3));
    MC_LOG("provided inputs per call (bit mask): " << mc::str(mask));
    judge(d, {}, times);
}
// arrays, integers and booleans in the undeterminable part
static void typed()
{
    Ty ty    = pick({TS, TI, TB, TA});
    int size = ty == TA ? 3 : 1;
    Diagram d;
    int miss   = d.input(0, ty, size), have = d.input(1, ty, size);
    int m      = choose(2);
    d.input_fn = [=](int s, double t, Val& v)
    {
        if (s == miss && m) return false;
        v = src_val(s, t, ty, size);
        return true;
    };
    Node f;
    f.k   = KFunc;
    f.in  = {miss, have};
    f.out = {d.sig(ty, size), d.sig(TB), d.sig(TA, 2)};
    d.nodes.push_back(f);
    Node g = f;
    g.in   = {have};
    g.out  = {d.sig(ty, size), d.sig(TI)};
    d.nodes.push_back(g);
    d.add(KPipe, {f.out[0]}, Val(), 0, 0, ty, size);
    d.add(KPipe, {g.out[0]}, Val(), 0, 0, ty, size);
    int l = d.sig(ty, size);
    int k = choose(2);
    if (k) d.add(KPipe, {l}, Val(), 0, 0, ty, size, l);
    BuildOpt o;
    o.order = mc::permutation(int(d.nodes.size()));
    judge(d, o, {0.5, 1});
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"wirings of 2 blocks", [] { wirings(2, {KSub, KSiso, KSource, KMem, KInteg, KDeriv}, true); }},
                         {"wirings of 3 blocks", [] { wirings(3, {KSub, KSiso, KMem}, false); }},
                         {"rings", rings},
                         {"inputs missing from time to time", missing_histories},
                         {"types", typed},
                         {"wirings of 3 blocks in submodels", [] { wirings(3, {KSub, KSiso, KMem, KInteg, KSource}, true); }, 2},
                         {"wirings of 4 blocks", [] { wirings(4, {KSub, KPipe, KMem}, false); }, 2}});
}
