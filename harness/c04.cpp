// C04: the assign-once protocol of value signals.
#include "ref.hpp"
using namespace ref;
#if defined(NDEBUG)
static const bool debug_build = false;
#else
static const bool debug_build = true;
#endif

template<typename T>
struct Tr;
template<>
struct Tr<double>
{
    using H = pooya::ScalarSignal;
    static std::vector<double> vals() { return {0.0, -2.5, std::nan(""), 1e308}; }
    static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
};
template<>
struct Tr<int>
{
    using H = pooya::IntSignal;
    static std::vector<int> vals() { return {0, -7, INT32_MAX, INT32_MIN}; }
    static bool same(int a, int b) { return a == b; }
};
template<>
struct Tr<bool>
{
    using H = pooya::BoolSignal;
    static std::vector<char> vals() { return {0, 1, 1, 0}; }
    static bool same(bool a, bool b) { return a == b; }
};
template<>
struct Tr<Array>
{
    using H = pooya::ArraySignal;
    static bool same(const Array& a, const Array& b)
    {
        if (a.size() != b.size()) return false;
        for (int i = 0; i < a.size(); i++)
            if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
        return true;
    }
};
static std::vector<Array> arrays(int n)
{
    std::vector<Array> r;
    for (int k = 0; k < 3; k++)
    {
        Array a(n);
        for (int i = 0; i < n; i++) a[i] = k == 2 ? (i ? -1.0 / i : std::nan("")) : k * 10 + i + 0.5;
        r.push_back(a);
    }
    return r;
}

// two signals, three handles: two fixed ones and one that is rebound; a bus around the first
template<typename T>
static void protocol(int depth, int size = 1)
{
    using H = typename Tr<T>::H;
    struct Cell
    {
        bool asg{false};
        T v{};
    };
    Cell cell[2];
    auto mk = [&](const char* n)
    {
        if constexpr (std::is_same_v<T, Array>)
            return H(std::size_t(size), n);
        else
            return H(n);
    };
    H a = mk("a"), b = mk("b");
    H h(a); // the rebindable handle
    int hb = 0;
    pooya::Bus bus({{"p", a}, {"q", b}});
    std::vector<T> vals;
    if constexpr (std::is_same_v<T, Array>)
        vals = arrays(size);
    else
        for (auto v : Tr<T>::vals()) vals.push_back(T(v));
    auto check = [&](const std::string& w)
    {
        H* hs[] = {&a, &b, &h};
        for (int i = 0; i < 3; i++)
        {
            H& x    = *hs[i];
            Cell& c = cell[i == 2 ? hb : i];
            MC_CHECK(x->assigned() == c.asg, w << ": handle " << i << " assigned=" << x->assigned() << ", expected " << c.asg);
            if (c.asg)
            {
                T v1 = x->get_value();
                T v2 = x;
                MC_CHECK(Tr<T>::same(v1, c.v) && Tr<T>::same(v2, c.v), w << ": handle " << i << " reads a value that was not the last assigned one");
            }
            else if (debug_build)
            {
                MC_CHECK(mc::throws([&] { (void)x->get_value(); }), w << ": reading an unassigned signal does not throw");
                MC_CHECK(mc::throws([&] { T v = x; (void)v; }), w << ": reading an unassigned handle does not throw");
                if constexpr (std::is_same_v<T, Array>)
                    MC_CHECK(mc::throws([&] { (void)x[0]; }), w << ": reading an element of an unassigned array does not throw");
                MC_CHECK(!x->assigned(), w << ": a rejected read changed the signal");
            }
        }
        H viabus(bus.at("p"));
        MC_CHECK(viabus->assigned() == cell[0].asg && &viabus.impl() == &a.impl(), w << ": the bus shows another signal");
    };
    // an assignment that may be rejected
    auto assign = [&](H& x, int c, const std::function<void()>& f, const T& v, const std::string& w, bool ok = true)
    {
        bool legal = ok && !cell[c].asg;
        if (!debug_build && !legal) throw mc::Discard{};
        bool threw = mc::throws(f);
        MC_CHECK(threw == !legal, w << (threw ? ": rejected although legal" : ": not rejected"));
        if (legal) cell[c] = {true, v};
    };
    uint64_t hs = 0;
    for (int k = 0; k < depth; k++)
    {
        int nops = std::is_same_v<T, Array> ? 10 : 8;
        int op   = choose(nops);
        std::string w = "operation " + std::to_string(k) + " (" + std::to_string(op) + ")";
        switch (op)
        {
        case 0: assign(a, 0, [&] { a = vals[k % vals.size()]; }, vals[k % vals.size()], w + " a=v"); break;
        case 1: assign(h, hb, [&] { h->set_value(vals[(k + 1) % vals.size()]); }, vals[(k + 1) % vals.size()], w + " h.set"); break;
        case 2: assign(b, 1, [&] { b = a; }, cell[0].v, w + " b=a", cell[0].asg); break;
        case 3: a->clear(); cell[0].asg = false; break;
        case 4: h->clear(); cell[hb].asg = false; break;
        case 5:
            h.reset(hb ? static_cast<const pooya::Signal&>(a) : static_cast<const pooya::Signal&>(b));
            hb = 1 - hb;
            break;
        case 6:
        {
            // a handle of another type cannot be bound
            pooya::ScalarSignal s("other");
            pooya::BoolSignal bo("other");
            const pooya::Signal& other = std::is_same_v<T, double> ? static_cast<const pooya::Signal&>(bo) : s;
            MC_CHECK(mc::throws([&] { h.reset(other); }), w << ": bound to a signal of another type");
            MC_CHECK(mc::throws([&] { H x(other); }), w << ": made from a signal of another type");
            MC_CHECK(mc::throws([&] { h.reset(bus); }), w << ": bound to a bus");
            break;
        }
        case 7:
        {
            H c(h);
            pooya::Signal sg(c.impl());
            H c2(sg);
            assign(c2, hb, [&] { c2 = vals[(k + 2) % vals.size()]; }, vals[(k + 2) % vals.size()], w + " copy=v");
            break;
        }
        default:
            if constexpr (std::is_same_v<T, Array>)
            {
                if (!debug_build) throw mc::Discard{};
                Array wrong(op == 8 ? size + 1 : (size == 1 ? 0 : size - 1));
                wrong.setZero();
                assign(h, hb, [&] { h = wrong; }, wrong, w + " wrong length", false);
            }
        }
        MC_LOG(w);
        check(w);
        hs = mc::mix(hs, uint64_t(op));
        mc::ex.state(mc::mix(mc::mix(uint64_t(cell[0].asg * 2 + cell[1].asg) * 2 + hb, size), sizeof(T)));
    }
    mc::ex.observe(hs);
}
// int handles convert; reading does not disturb
static void values()
{
    std::vector<double> ds{0.0, -0.0, 1.5, -1e300, 5e-324, INFINITY, -INFINITY, std::nan("")};
    double v = pick(ds);
    pooya::ScalarSignal s("s"), s2("s2");
    s  = v;
    s2 = s;
    double r = s2;
    MC_CHECK(std::memcmp(&r, &v, 8) == 0 || (std::isnan(r) && std::isnan(v)), "value " << v << " came back as " << r);
    int i = pick({0, 1, -1, 1 << 24, (1 << 24) + 1, INT32_MAX, INT32_MIN, 123456789});
    pooya::IntSignal is("i");
    is = i;
    MC_CHECK(int(is) == i && is->get_value() == i, "int " << i << " came back as " << int(is));
    MC_CHECK(static_cast<double>(is) == double(i), "int " << i << " as double");
    MC_CHECK(long(static_cast<long>(is)) == long(i), "int " << i << " as long");
    bool bv = choose(2);
    pooya::BoolSignal bs("b");
    bs = bv;
    MC_CHECK(bool(bs) == bv && bs->get_value() == bv, "bool came back changed");
    int n = pick({1, 2, 3, 4, 7, 16, 100, 1000});
    pooya::ArraySignal as(n, "a"), as2(n, "a2");
    MC_CHECK(as->size() == std::size_t(n), "array length");
    Array x(n);
    for (int k = 0; k < n; k++) x[k] = v + k;
    as = x;
    x.setConstant(-77); // the signal holds its own copy
    as2 = as;
    for (int k = 0; k < n; k++)
    {
        MC_CHECK(mc::close(as[k], v + k, 0) && mc::close(as2[k], v + k, 0), "array element " << k << " came back as " << as[k]);
        MC_CHECK(mc::close(as->get_value()[k], v + k, 0), "array element (get_value)");
    }
    // clearing one leaves the other
    as->clear();
    MC_CHECK(!as->assigned() && as2->assigned() && mc::close(as2[n - 1], v + (n - 1), 0), "clearing one array touched another");
    mc::ex.observe(v + i + n);
}
// the protocol inside a running model: every signal is assigned exactly once per evaluation, by its producer
static void producers()
{
    // two blocks write the same signal: rejected at evaluation; a user function that writes twice, reads too early, or too often
    int mode = choose(6);
    int eng  = choose(3);
    if (!debug_build) throw mc::Discard{};
    using namespace pooya;
    Submodel m(nullptr, "m");
    ScalarSignal a("a"), b("b");
    IntSignal i("i");
    Const c1(1.0), c2(2.0);
    Pipe p;
    Function f(
        [&](double, const Bus& ib, const Bus& ob)
        {
            ScalarSignal in(ib.at(0)), out(ob.at(0));
            if (mode == 1)
            {
                out = double(in);
                out = double(in);
            }
            if (mode == 2) out = double(out);
            if (mode == 3) in = 3;
            if (mode == 4)
            {
                out->set_value(1);
                out->clear();
                out = double(in) + 1;
            }
            if (mode == 5) out = double(in);
        });
    m.add_block(c1, {}, {a});
    if (mode == 0) m.add_block(c2, {}, {a});
    m.add_block(f, {a}, {b});
    auto sim = make_engine(eng, m, nullptr, nullptr);
    bool threw = mc::throws([&] { sim->init(0); if (mode < 4) sim->run(1); });
    MC_CHECK(threw == (mode < 4), "mode " << mode << (threw ? ": rejected" : ": not rejected"));
    if (mode == 4) MC_CHECK(mc::close(b, 2), "cleared and assigned again");
    if (mode == 5) MC_CHECK(mc::close(b, 1), "plain");
    mc::ex.observe(uint64_t(mode));
}
int main(int argc, char** argv)
{
    auto dep = [](int q, int t) { return mc::ex.thorough ? t : q; };
    return mc::run_main(argc, argv,
                        {{"scalar operation sequences", [=] { protocol<double>(dep(5, 6)); }},
                         {"int operation sequences", [=] { protocol<int>(dep(5, 6)); }},
                         {"bool operation sequences", [=] { protocol<bool>(dep(5, 6)); }},
                         {"array[3] operation sequences", [=] { protocol<Array>(dep(4, 5), 3); }},
                         {"array[1] operation sequences", [=] { protocol<Array>(dep(4, 5), 1); }},
                         {"values", values},
                         {"producers in a model", producers}});
}
