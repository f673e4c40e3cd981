// C15: History returns what was recorded.
#include <map>
#include "ref.hpp"
using namespace ref;
using pooya::History;

struct Model // what the history should hold
{
    std::vector<pooya::Signal> sigs; // tracked
    std::vector<std::string> names;
    std::map<unsigned, std::pair<double, std::vector<Val>>> rows;
    unsigned nrows() const { return rows.empty() ? 0 : rows.rbegin()->first + 1; }
};
static int width(const pooya::Signal& s)
{
    auto* a = dynamic_cast<pooya::ArraySignalImpl*>(&s.impl());
    return a ? int(a->size()) : 1;
}
static bool same(double a, double b) { return (a == b && std::signbit(a) == std::signbit(b)) || (a != a && b != b); }
static void check(const History& h, const Model& m, bool tight, const std::string& where)
{
    MC_CHECK(h.nrows() == m.nrows(), where << ": nrows() is " << h.nrows() << ", expected " << m.nrows());
    if (m.rows.empty()) return;
    MC_CHECK(h.size() == m.sigs.size(), where << ": " << h.size() << " signals recorded, expected " << m.sigs.size());
    MC_CHECK(h.time().size() >= long(m.nrows()), where << ": the time column has " << h.time().size() << " rows, expected at least " << m.nrows());
    if (tight) MC_CHECK(h.time().size() == long(m.nrows()), where << ": the time column has " << h.time().size() << " rows after shrinking, expected " << m.nrows());
    for (std::size_t i = 0; i < m.sigs.size(); i++)
    {
        const auto& x = h[m.sigs[i]];
        MC_CHECK(x.rows() >= long(m.nrows()) && x.cols() == width(m.sigs[i]), where << ": " << m.names[i] << " has " << x.rows() << "x" << x.cols() << " numbers");
        if (tight) MC_CHECK(x.rows() == long(m.nrows()), where << ": " << m.names[i] << " has " << x.rows() << " rows after shrinking, expected " << m.nrows());
    }
    for (auto& [k, r] : m.rows)
    {
        MC_CHECK(same(h.time()(k), r.first), where << ": time of row " << k << " is " << h.time()(k) << ", expected " << r.first);
        mc::ex.observe(r.first);
        for (std::size_t i = 0; i < m.sigs.size(); i++)
        {
            const auto& x = h[m.sigs[i]];
            for (std::size_t e = 0; e < r.second[i].v.size(); e++)
            {
                double w = r.second[i].v[e];
                mc::ex.observe(w);
                MC_CHECK(same(x(k, long(e)), w), where << ": row " << k << " of " << m.names[i] << " element " << e << " is " << x(k, long(e)) << ", expected " << w);
            }
        }
    }
}
static std::string csv_name() { return "c15_" + std::to_string(getpid()) + ".csv"; }
static std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> r;
    std::string cur;
    for (char c : s)
        if (c == ',')
        {
            r.push_back(cur);
            cur.clear();
        }
        else
            cur += c;
    r.push_back(cur);
    return r;
}
static void check_csv(History& h, const Model& m, const std::string& where)
{
    if (m.rows.empty()) return;
    std::string fn = csv_name();
    h.export_csv(fn);
    std::ifstream f(fn);
    std::vector<std::vector<std::string>> lines;
    std::string l;
    while (std::getline(f, l)) lines.push_back(split(l));
    f.close();
    unlink(fn.c_str());
    MC_CHECK(lines.size() == m.nrows() + 1, where << ": the CSV file has " << lines.size() << " lines, expected " << m.nrows() + 1);
    std::size_t cols = 1;
    for (auto& s : m.sigs) cols += width(s);
    for (auto& x : lines) MC_CHECK(x.size() == cols, where << ": a CSV line has " << x.size() << " fields, expected " << cols);
    MC_CHECK(lines[0][0] == "time", where << ": the first CSV column is " << lines[0][0]);
    for (std::size_t i = 0; i < m.sigs.size(); i++)
    {
        // the columns under this signal's name
        std::vector<std::size_t> at;
        bool arr = dynamic_cast<pooya::ArraySignalImpl*>(&m.sigs[i].impl());
        for (std::size_t c = 1; c < cols; c++)
            if (lines[0][c] == m.names[i] || (arr && lines[0][c].compare(0, m.names[i].size() + 1, m.names[i] + "[") == 0)) at.push_back(c);
        MC_CHECK(at.size() == std::size_t(width(m.sigs[i])), where << ": " << at.size() << " CSV columns for " << m.names[i]);
        for (auto& [k, r] : m.rows)
        {
            MC_CHECK(mc::close(std::strtod(lines[k + 1][0].c_str(), nullptr), r.first, 1e-5), where << ": CSV row " << k << " has time " << lines[k + 1][0] << ", expected " << r.first);
            for (std::size_t e = 0; e < at.size(); e++)
                MC_CHECK(mc::close(std::strtod(lines[k + 1][at[e]].c_str(), nullptr), r.second[i].v[e], 1e-5), where << ": CSV row " << k << " of " << m.names[i] << " is " << lines[k + 1][at[e]] << ", expected " << r.second[i].v[e]);
        }
    }
}
static void record(History& h, Model& m, unsigned k, double t, int variant)
{
    std::vector<Val> row;
    for (std::size_t i = 0; i < m.sigs.size(); i++)
    {
        auto& s = m.sigs[i];
        vimpl(s).clear();
        Val v = zero(Ty(dynamic_cast<pooya::ArraySignalImpl*>(&s.impl()) ? TA : dynamic_cast<pooya::IntSignalImpl*>(&s.impl()) ? TI : dynamic_cast<pooya::BoolSignalImpl*>(&s.impl()) ? TB : TS), width(s));
        // variant: all have values / some of them / none
        if (variant == 0 || (variant == 1 && i % 2 == 0))
        {
            for (std::size_t e = 0; e < v.v.size(); e++) v.v[e] = v.ty == TB ? 1 : v.ty == TI ? int(10 * t) - 5 : t * 2 + double(i) + 0.25 * double(e) - 3;
            write(s, v);
        }
        row.push_back(v);
    }
    h.update(k, t);
    m.rows[k] = {t, row};
}
static std::vector<pooya::Signal> signals(int cfg, std::vector<std::string>& names)
{
    using namespace pooya;
    std::vector<pooya::Signal> all{ScalarSignal("s"), ArraySignal(3, "arr"), IntSignal("i"), BoolSignal("b"), ArraySignal(1, "one"), ScalarSignal("s2")};
    std::vector<std::string> nm{"s", "arr", "i", "b", "one", "s2"};
    std::vector<pooya::Signal> r;
    for (std::size_t k = 0; k < all.size(); k++)
        if (cfg >> k & 1)
        {
            r.push_back(all[k]);
            names.push_back(nm[k]);
        }
    return r;
}

// all sequences of recordings and shrinks
static void sequences()
{
    unsigned grow = pick({0u, 1u, 2u, 3u, 5u, 1000u});
    int cfg       = pick({1, 2, 0b1111, 0b110011});
    int depth     = mc::ex.thorough ? 5 : 3;
    Model m;
    m.sigs = signals(cfg, m.names);
    History h(grow);
    for (auto& s : m.sigs) MC_CHECK(h.track(s), "a signal cannot be tracked");
    double t   = -1.5;
    bool tight = false;
    std::string where = "growth " + std::to_string(grow);
    for (int i = 0; i < depth; i++)
    {
        int op = choose(10);
        t += 0.5;
        if (op == 9)
        {
            h.shrink_to_fit();
            tight = true;
            where += " shrink";
        }
        else
        {
            unsigned k = std::vector<unsigned>{0, 1, 2, 7, 3}[op % 5];
            record(h, m, k, t, op < 5 ? 0 : 1);
            tight = false;
            where += " update(" + std::to_string(k) + ")";
        }
        check(h, m, tight, where);
    }
    MC_LOG(where);
    h.shrink_to_fit();
    check(h, m, true, where + " shrink");
    check_csv(h, m, where);
}
// values and times that are not ordinary numbers; a position that has a value shows it
static void special()
{
    using namespace pooya;
    static const double x[] = {NAN, INFINITY, -INFINITY, -0.0, 1e308, -5e-324, 0};
    unsigned grow = pick({1u, 2u, 1000u});
    Model m;
    m.sigs = signals(0b010111, m.names);
    History h(grow);
    for (auto& s : m.sigs) h.track(s);
    int depth = mc::ex.thorough ? 4 : 3;
    std::string where = "special values";
    for (int i = 0; i < depth; i++)
    {
        int kind   = i > 1 && !mc::ex.thorough ? 1 : choose(7);
        unsigned k = pick({0u, 2u});
        int which  = i ? choose(3) : 0; // all of them, the scalar, one element of the array
        double t = which == 1 ? 1e300 : which == 2 ? -0.0 : i * 0.25;
        std::vector<Val> row;
        for (std::size_t j = 0; j < m.sigs.size(); j++)
        {
            auto& s = m.sigs[j];
            vimpl(s).clear();
            Val v = zero(Ty(dynamic_cast<pooya::ArraySignalImpl*>(&s.impl()) ? TA : dynamic_cast<pooya::IntSignalImpl*>(&s.impl()) ? TI : TS), width(s));
            for (std::size_t e = 0; e < v.v.size(); e++)
                v.v[e] = v.ty == TI ? (kind & 1 ? 2147483647.0 : -2147483648.0) : which == 0 || (which == 1 && j == 0) || (which == 2 && e == 1) ? x[kind] : 1.5 * double(e + j);
            write(s, v);
            row.push_back(v);
        }
        h.update(k, t);
        m.rows[k] = {t, row};
        where += " update(" + std::to_string(k) + ", " + std::to_string(x[kind]) + ")";
        check(h, m, false, where);
    }
    MC_LOG(where);
    h.shrink_to_fit();
    check(h, m, true, where);
    check_csv(h, m, where);
}
// tracking
static void tracking()
{
    using namespace pooya;
    History h(2);
    std::vector<std::string> nm;
    auto all = signals(0b111111, nm);
    Bus bus({all[0], all[1]}, "bus");
    std::vector<int> in;
    int n = mc::ex.thorough ? 6 : 4;
    std::string where;
    for (int i = 0; i < n; i++)
    {
        int op = choose(9);
        if (op < 4)
        {
            int s    = op;
            bool had = std::find(in.begin(), in.end(), s) != in.end();
            bool r   = h.track(all[s]);
            MC_CHECK(r == !had, where << ": track(" << nm[s] << ") returns " << r);
            if (!had) in.push_back(s);
            where += " track " + nm[s];
        }
        else if (op < 8)
        {
            int s = op - 4;
            h.untrack(all[s]);
            auto it = std::find(in.begin(), in.end(), s);
            if (it != in.end()) in.erase(it);
            where += " untrack " + nm[s];
        }
        else
        {
            MC_CHECK(!h.track(bus), "a bus can be tracked");
            h.untrack(bus);
            where += " bus";
        }
    }
    if (in.empty()) return;
    Model m;
    for (int s : in)
    {
        m.sigs.push_back(all[s]);
        m.names.push_back(nm[s]);
    }
    record(h, m, 0, 1, 0);
    record(h, m, 1, 2, 1);
    record(h, m, 2, 3, 0);
    record(h, m, 1, 4, 0);
    MC_LOG(where);
    check(h, m, false, where);
    check_csv(h, m, where);
    for (int s = 0; s < 6; s++)
        if (std::find(in.begin(), in.end(), s) == in.end()) MC_CHECK(mc::throws([&] { h[all[s]]; }), where << ": " << nm[s] << " is not tracked and found");
    MC_CHECK(mc::throws([&] { h[bus]; }), "a bus is found in the history");
}
// many rows; rows in any order
static void long_()
{
    unsigned grow = pick({0u, 1u, 2u, 7u, 64u, 999u, 1000u, 1001u, 5000u});
    int n         = pick({1, 7, 8, 63, 64, 65, 999, 1000, 1001, 2003});
    int order     = choose(5);
    int def       = choose(2);
    Model m;
    m.sigs = signals(order % 2 ? 0b011011 : 0b000111, m.names);
    auto h = def && grow == 1000 ? std::make_unique<History>() : std::make_unique<History>(grow);
    for (auto& s : m.sigs) h->track(s);
    std::string where = "growth " + std::to_string(grow) + ", " + std::to_string(n) + " rows, order " + std::to_string(order);
    MC_LOG(where);
    for (int i = 0; i < n; i++)
    {
        int k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 7) % n : order == 3 ? i / 2 : i ^ 1;
        record(*h, m, k, 0.125 * i - 3, i % 5 == 3 ? 1 : i % 7 == 6 ? 2 : 0);
        if (i == n / 2 && order != 1) h->shrink_to_fit();
    }
    check(*h, m, false, where);
    check_csv(*h, m, where);
    h->shrink_to_fit();
    check(*h, m, true, where);
    check_csv(*h, m, where);
    // a shorter one written over a longer one
    History h2(grow);
    Model m2;
    m2.sigs  = m.sigs;
    m2.names = m.names;
    for (auto& s : m2.sigs) h2.track(s);
    record(h2, m2, 0, 5, 0);
    std::ofstream(csv_name()) << std::string(5000, 'x') << "\n";
    check_csv(h2, m2, where + ", over an old file");
}
// recorded along a simulation
static void simulation()
{
    int eng   = choose(3);
    int stp   = choose(3);
    int n     = pick({3, 20, 130});
    int grow  = pick({1, 3, 1000});
    int every = choose(2) + 1;
    Diagram d;
    int dx  = d.sig();
    int x   = d.add(KInteg, {dx}, Val(1));
    int u   = d.input(0);
    d.add(KSub, {u, x}, Val(), 0, 0, TS, 1, dx);
    int a = d.add(KSource, {}, Val(), 0, 2, TA, 4);
    int m_ = d.add(KMem, {a}, Val(TA, {1, 2, 3, 4}), 0, 0, TA, 4);
    d.add(KPipe, {m_}, Val(), 0, 0, TA, 4);
    int b = d.add(KSource, {}, Val(), 0, 1, TB);
    auto bt = build(d);
    auto st = make_stepper(stp);
    auto sim = make_engine(eng, bt->model(), bt->inputs(), st.get());
    History h(grow);
    Model m;
    for (int s : {x, dx, m_, b, u})
    {
        m.sigs.push_back(bt->sig[s]);
        m.names.push_back(bt->sig[s].impl().name().str());
        h.track(bt->sig[s]);
    }
    unsigned k = 0;
    for (int i = 0; i < n; i++)
    {
        double t = 0.125 * i;
        sim->run(t);
        if (i % every) continue;
        h.update(k, t);
        std::vector<Val> row;
        for (auto& s : m.sigs) row.push_back(read(s));
        m.rows[k++] = {t, row};
    }
    MC_LOG(engine_name(eng) << " " << n << " steps");
    h.shrink_to_fit();
    check(h, m, true, "along a simulation");
    check_csv(h, m, "along a simulation");
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv, {{"sequences", sequences}, {"special values", special}, {"tracking", tracking}, {"long", long_}, {"simulation", simulation}});
}
