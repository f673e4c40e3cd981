// C05: state integration.
#include "drive.hpp"
using namespace ref;

static const std::vector<Plan> plans{{0, {0.5, 1.25}, 0.0625, 0.25, true}, {-2, {-1.75, 0.5}, 0.125, 1, false}, {3, {3.5, 3.75, 4}, 0.0625, 0.5, true}};

// n scalar integrators; the input of each is any state, a source, or a function of a state
static void wirings(int n)
{
    Diagram d;
    std::vector<int> s;
    for (int i = 0; i < n; i++) s.push_back(d.sig());
    for (int i = 0; i < n; i++)
    {
        int c = choose(2 * n + 2), in;
        if (c < n)
            in = s[c];
        else if (c < 2 * n)
            in = d.add(KSiso, {s[c - n]}, Val(), 0, i + 1);
        else if (c == 2 * n)
            in = d.add(KSource, {}, Val(), 0, i);
        else
            in = d.add(KConst, {}, Val(0.5 + i));
        d.add(KInteg, {in}, Val(1.0 + 0.5 * i), 0, 0, TS, 1, s[i]);
    }
    BuildOpt o;
    if (choose(2))
        for (int i = int(d.nodes.size()); i-- > 0;) o.order.push_back(i);
    int st = choose(3), eng = choose(3);
    MC_LOG(d.text());
    drive(d, o, eng, st, mc::ex.thorough ? pick(plans) : plans[(st + eng) % 3]);
}
// mixes of scalar and array states coupled by one function block; other allocations in between
static void mixes(int maxn)
{
    int n = choose(maxn) + 1;
    std::vector<int> sizes;
    for (int i = 0; i < n; i++) sizes.push_back(pick({0, 1, 2, 3})); // 0: scalar
    int shared = choose(3); // 0: one function block; 1: one per state; 2: states of equal type share their derivative
    int pad    = choose(3);
    int st = choose(3), eng = choose(2) ? EFast : ESim;
    Diagram d;
    std::vector<int> s, dv;
    std::vector<std::unique_ptr<char[]>> junk;
    for (int i = 0; i < n; i++)
    {
        s.push_back(d.sig(sizes[i] ? TA : TS, std::max(1, sizes[i])));
        for (int p = 0; p < pad * (i + 1); p++) d.sig(TA, 5 + 3 * p); // signals that are not used
    }
    for (int i = 0; i < n; i++) dv.push_back(d.sig(sizes[i] ? TA : TS, std::max(1, sizes[i])));
    if (shared == 0)
    {
        Node f;
        f.k = KFunc;
        f.in = s;
        f.out = dv;
        d.nodes.push_back(f);
    }
    else
        for (int i = 0; i < n; i++)
        {
            Node f;
            f.k   = KFunc;
            f.in  = {s[(i + 1) % n], s[i]};
            f.out = {dv[i]};
            f.fn  = i;
            d.nodes.push_back(f);
        }
    for (int i = 0; i < n; i++)
    {
        int k = i;
        if (shared == 2)
            for (k = 0; sizes[k] != sizes[i]; k++) {}
        Val ic = zero(sizes[i] ? TA : TS, std::max(1, sizes[i]));
        for (std::size_t j = 0; j < ic.v.size(); j++) ic.v[j] = 1 + i - 0.25 * double(j);
        d.add(KInteg, {dv[k]}, ic, 0, 0, sizes[i] ? TA : TS, std::max(1, sizes[i]), s[i]);
    }
    MC_LOG(d.text());
    drive(d, {}, eng, st, {0.5, {0.75, 1.0}, 0.0625, 0.125, true});
}
// creation orders of a mixed set of integrators
static void orders()
{
    Diagram d;
    int a = d.sig(), b = d.sig(TA, 2), c = d.sig(), e = d.sig(TA, 3);
    Node f;
    f.k   = KFunc;
    f.in  = {a, b, c, e};
    f.out = {d.sig(), d.sig(TA, 2), d.sig(TA, 3)};
    d.nodes.push_back(f);
    d.add(KInteg, {f.out[0]}, Val(1), 0, 0, TS, 1, a);
    d.add(KInteg, {f.out[1]}, Val(TA, {2, 3}), 0, 0, TA, 2, b);
    d.add(KInteg, {a}, Val(-1), 0, 0, TS, 1, c);
    d.add(KInteg, {f.out[2]}, Val(TA, {4, 5, 6}), 0, 0, TA, 3, e);
    BuildOpt o;
    o.order = mc::permutation(5);
    o.style = choose(3);
    int st = choose(3), eng = choose(3);
    MC_LOG(d.text() << mc::str(o.order));
    drive(d, o, eng, st, {0, {0.5, 1.0}, 0.125, 0.25, true});
}
// many states, long arrays
static void many()
{
    int n    = pick({5, 12, 13, 14, 30, 59, 120});
    int mode = choose(4); // 0: scalar chain; 1: scalars sharing a source; 2: alternating scalar/array; 3: one long array
    int st = choose(3), eng = choose(3);
    Diagram d;
    if (mode == 3)
    {
        int s = d.sig(TA, n);
        int g = d.add(KSiso, {s}, Val(), 0, 2, TA, n);
        Val ic = zero(TA, n);
        for (int i = 0; i < n; i++) ic.v[i] = i;
        d.add(KInteg, {g}, ic, 0, 0, TA, n, s);
    }
    else
    {
        int src = d.add(KSource, {}, Val(), 0, 3);
        int asrc = d.add(KSource, {}, Val(), 0, 1, TA, 3);
        int prev = src, aprev = asrc;
        for (int i = 0; i < n; i++)
        {
            if (mode == 2 && i % 2)
                aprev = d.add(KInteg, {aprev}, Val(TA, {double(i), 1, -1}), 0, 0, TA, 3);
            else
                prev = d.add(KInteg, {mode == 1 ? src : prev}, Val(0.5 * i), 0, 0);
        }
    }
    BuildOpt o;
    if (choose(2))
        for (int i = int(d.nodes.size()); i-- > 0;) o.order.push_back(i);
    MC_LOG("n=" << n << " mode " << mode);
    drive(d, o, eng, st, {0, {0.5, 1.5}, 0.125, 0.25, true});
}
// more states than fit in a byte
static void very_many()
{
    int n    = pick({100, 127, 128, 129, 254, 255, 256, 257, 258, 300, 513});
    int mode = choose(3); // 0: scalars; 1: arrays of 7; 2: one long array between two scalars
    int st = choose(3), eng = choose(2) ? EFast : ESim;
    Diagram d;
    int src = d.add(KSource, {}, Val(), 0, 3);
    if (mode == 2)
    {
        int a = d.add(KInteg, {src}, Val(2));
        int s = d.sig(TA, n), g = d.add(KSiso, {s}, Val(), 0, 2, TA, n);
        Val ic = zero(TA, n);
        for (int i = 0; i < n; i++) ic.v[i] = i;
        d.add(KInteg, {g}, ic, 0, 0, TA, n, s);
        d.add(KInteg, {a}, Val(-1));
    }
    else
    {
        int asrc = d.add(KSource, {}, Val(), 0, 1, TA, 7);
        for (int i = 0; i < n; i += mode ? 7 : 1)
            if (mode)
                asrc = d.add(KInteg, {i % 14 ? asrc : d.add(KSource, {}, Val(), 0, i % 5, TA, 7)}, Val(TA, {double(i), 1, 2, 3, 4, 5, -double(i)}), 0, 0, TA, 7);
            else
                d.add(KInteg, {i % 3 ? src : d.nodes[i ? std::size_t(i - 1) : 0].out[0]}, Val(0.5 * i));
    }
    MC_LOG("n=" << n << " mode " << mode);
    drive(d, {}, eng, st, {0, {0.25, 0.5}, 0.125, 0.25, true});
}
// nonlinear and stiff: rejected steps, error control over mixed states
static void adaptive()
{
    double k   = pick({1.0, 8.0, 30.0, 100.0});
    int arr    = choose(2);
    int order  = choose(2);
    double hmx = pick({0.25, 1.0});
    double hmn = pick({0.001, 0.0625});
    int eng    = choose(3);
    Diagram d;
    int a = d.sig(), b = arr ? d.sig(TA, 2) : d.sig();
    int src = d.add(KSource, {}, Val(), 0, 2);
    int u = d.add(KSub, {src, a});
    int g = d.add(KGain, {u}, Val(), k);
    auto mka = [&] { d.add(KInteg, {g}, Val(0.5), 0, 0, TS, 1, a); };
    auto mkb = [&]
    {
        if (arr)
        {
            int q = d.add(KSiso, {b}, Val(), 0, 2, TA, 2);
            d.add(KInteg, {q}, Val(TA, {1, -1}), 0, 0, TA, 2, b);
        }
        else
            d.add(KInteg, {a}, Val(1), 0, 0, TS, 1, b);
    };
    if (order)
    {
        mka();
        mkb();
    }
    else
    {
        mkb();
        mka();
    }
    MC_LOG(d.text());
    drive(d, {}, eng, SRkf45, {0, {0.5, 1.5, 2}, hmn, hmx, true}, 1e-7);
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"wirings of 1 integrator", [] { wirings(1); }},
                         {"wirings of 2 integrators", [] { wirings(2); }},
                         {"wirings of 3 integrators", [] { wirings(3); }},
                         {"mixes of scalar and array states", [] { mixes(3); }},
                         {"creation orders", orders},
                         {"many states", many},
                         {"very many states", very_many},
                         {"adaptive steps", adaptive},
                         {"mixes of up to 4 states", [] { mixes(4); }, 2}});
}
