// C13: looking up signals in buses.
#include "ref.hpp"
using namespace ref;
#if defined(NDEBUG)
static const bool debug_build = false;
#else
static const bool debug_build = true;
#endif

static std::string valid(std::string s)
{
    for (char& c : s)
        if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_')) c = '_';
    return s;
}
// what a bus should contain
struct Tree
{
    std::string label; // as given
    pooya::SignalImpl* impl{nullptr};
    bool bus{false};
    std::vector<Tree> kids;
};
// the signal a path leads to, or null
static const Tree* lookup(const Tree& b, const std::string& path)
{
    auto dot         = path.find('.');
    std::string head = path.substr(0, dot);
    for (auto& k : b.kids)
        if (valid(k.label) == head)
        {
            if (dot == std::string::npos) return &k;
            if (!k.bus) return nullptr;
            return lookup(k, path.substr(dot + 1));
        }
    return nullptr;
}
static void check_path(const pooya::Bus& bus, const Tree& t, const std::string& p)
{
    const Tree* e = lookup(t, p);
    mc::ex.observe(std::uint64_t(e ? 1 + std::hash<std::string>()(e->label) % 1000 : 0));
    if (e)
    {
        MC_CHECK(&bus.at(p).impl() == e->impl, "at(\"" << p << "\") gives another signal, " << bus.at(p).impl().name().str());
        MC_CHECK(&bus[std::string_view(p)].impl() == e->impl, "[\"" << p << "\"] gives another signal");
        MC_CHECK(&bus->at(p).impl() == e->impl, "at(\"" << p << "\") of the implementation gives another signal");
        auto o = bus->try_at(p);
        MC_CHECK(o.has_value() && &o->impl() == e->impl, "try_at(\"" << p << "\") gives " << (o ? "another signal" : "nothing"));
    }
    else
    {
        MC_CHECK(mc::throws([&] { bus.at(p); }), "at(\"" << p << "\") does not throw");
        MC_CHECK(mc::throws([&] { bus[std::string_view(p)]; }), "[\"" << p << "\"] does not throw");
        MC_CHECK(!bus->try_at(p).has_value(), "try_at(\"" << p << "\") gives something");
    }
}
static void check_order(const pooya::Bus& bus, const Tree& t)
{
    MC_CHECK(bus.size() == t.kids.size(), "size() is " << bus.size() << ", expected " << t.kids.size());
    std::size_t i = 0;
    for (const auto& [label, sig] : bus)
    {
        MC_CHECK(i < t.kids.size(), "iteration gives more signals than were put in");
        MC_CHECK(label == valid(t.kids[i].label), "label " << i << " is \"" << label << "\", expected \"" << valid(t.kids[i].label) << "\"");
        MC_CHECK(&sig.impl() == t.kids[i].impl, "iteration gives another signal at position " << i);
        MC_CHECK(&bus.at(i).impl() == t.kids[i].impl, "at(" << i << ") gives another signal");
        MC_CHECK(&bus[i].impl() == t.kids[i].impl, "[" << i << "] gives another signal");
        i++;
    }
    MC_CHECK(i == t.kids.size(), "iteration ends after " << i << " signals");
    for (std::size_t k : {t.kids.size(), t.kids.size() + 1, t.kids.size() + 100, std::size_t(-1)})
    {
        MC_CHECK(mc::throws([&] { bus.at(k); }), "at(" << k << ") of a bus of " << t.kids.size() << " signals does not throw");
        if (debug_build) MC_CHECK(mc::throws([&] { bus[k]; }), "[" << k << "] of a bus of " << t.kids.size() << " signals does not throw");
    }
}
static pooya::Signal sig_of(int ty, const std::string& name)
{
    switch (ty % 4)
    {
    case 1: return pooya::IntSignal(name);
    case 2: return pooya::ArraySignal(3, name);
    case 3: return pooya::BoolSignal(name);
    default: return pooya::ScalarSignal(name);
    }
}

static const std::vector<std::string> pool{"a", "aa", "a b", "b", "A", "a.b", "sig1", "_", "ab", ""};

// all selections of up to 4 different labels in all orders
static void flat()
{
    int n = choose(mc::ex.thorough ? 5 : 4) + 1;
    std::vector<std::string> left = pool;
    Tree t;
    std::vector<Labelled> v;
    for (int i = 0; i < n; i++)
    {
        int k = choose(int(left.size()));
        Tree c;
        c.label = left[k];
        left.erase(left.begin() + k);
        // labels with the same valid form name the same signal: no verdict on which of them wins
        for (auto& o : t.kids)
            if (valid(o.label) == valid(c.label)) throw mc::Discard{};
        auto s = sig_of(i, i % 2 ? "n" : "");
        c.impl = &s.impl();
        v.emplace_back(c.label, s);
        t.kids.push_back(c);
    }
    pooya::Bus bus = make_lbus(v);
    MC_LOG("labels: " << [&] {std::string s; for (auto& k : t.kids) s += "\"" + k.label + "\" "; return s; }());
    check_order(bus, t);
    for (auto& p : pool) check_path(bus, t, p);
    for (auto p : {"a_b", "a.", ".a", ".", "a.a", "a.b.c", "sig0", "sig", "sig10", "B", "c", "a_", "_a", "aaa", "a b"}) check_path(bus, t, p);
    for (std::size_t i = 0; i < v.size(); i++)
    {
        std::string want = i % 2 ? "n" : valid(t.kids[i].label);
        MC_CHECK(v[i].second.impl().name().str() == want, "signal " << i << " is named \"" << v[i].second.impl().name().str() << "\", expected \"" << want << "\"");
    }
    // another handle on the same bus, and a copy
    pooya::Bus again(bus.impl());
    pooya::Signal plain(bus);
    pooya::Bus back(plain);
    check_order(again, t);
    check_order(back, t);
    pooya::Bus other;
    other.reset(bus);
    check_order(other, t);
    check_path(other, t, pool[0]);
}
// nested buses: all trees of at most 4 (6) entries over 3 labels and depth at most 3
static int budget_;
static void grow(Tree& t, int depth, std::vector<Labelled>& out, bool named)
{
    static const std::vector<std::string> labels{"a", "ab", "b-c"};
    std::vector<Labelled> mine;
    for (auto& l : labels)
    {
        if (budget_ <= 0) break;
        int what = choose(depth > 0 ? 3 : 2);
        if (what == 0) continue;
        budget_--;
        Tree c;
        c.label = l;
        if (what == 1)
        {
            auto s = sig_of(budget_, named ? "n" + std::to_string(budget_) : "");
            c.impl = &s.impl();
            mine.emplace_back(l, s);
        }
        else
        {
            c.bus = true;
            std::vector<Labelled> sub;
            grow(c, depth - 1, sub, named);
            pooya::Bus b = make_lbus(sub, named ? "bus" : "");
            c.impl       = &b.impl();
            mine.emplace_back(l, b);
        }
        t.kids.push_back(c);
    }
    // the order of the entries
    if (mine.size() > 1 && choose(2))
    {
        std::reverse(mine.begin(), mine.end());
        std::reverse(t.kids.begin(), t.kids.end());
    }
    out = mine;
}
static void check_tree(const pooya::Bus& bus, const Tree& t)
{
    check_order(bus, t);
    for (auto& k : t.kids)
        if (k.bus) check_tree(pooya::Bus(bus.at(valid(k.label))), k);
}
static void check_names(const Tree& t, bool named)
{
    for (auto& k : t.kids)
    {
        if (!named) MC_CHECK(k.impl->name().str() == valid(k.label), "an unnamed signal stored as \"" << k.label << "\" is called \"" << k.impl->name().str() << "\"");
        if (named) MC_CHECK(k.impl->name().str()[0] == (k.bus ? 'b' : 'n'), "a named signal was renamed to " << k.impl->name().str());
        if (k.bus) check_names(k, named);
    }
}
static void trees()
{
    budget_    = mc::ex.thorough ? 6 : 4;
    bool named = choose(2);
    Tree t;
    std::vector<Labelled> v;
    grow(t, 3, v, named);
    pooya::Bus bus = make_lbus(v);
    check_tree(bus, t);
    check_names(t, named);
    static const std::vector<std::string> heads{"a", "ab", "b_c", "b"};
    std::vector<std::string> paths{""}, all;
    for (int d = 0; d < 4; d++)
    {
        std::vector<std::string> next;
        for (auto& p : paths)
            for (auto& h : heads)
            {
                std::string q = p.empty() ? h : p + "." + h;
                all.push_back(q);
                // only what exists can be continued; deeper misses are all alike
                if (lookup(t, q)) next.push_back(q);
            }
        paths = next;
        if (paths.empty()) break;
    }
    for (auto& p : all)
    {
        check_path(bus, t, p);
        if (!lookup(t, p)) continue;
        check_path(bus, t, p + ".");
        check_path(bus, t, "." + p);
        check_path(bus, t, p + "..a");
    }
    for (auto p : {"", ".", "..", "a..a", "b-c", "a.b-c"}) check_path(bus, t, p);
}
// unlabelled signals: sig0, sig1, ...; names given and taken
static void automatic()
{
    int n    = pick({0, 1, 2, 3, 5, 9, 10, 11, 12, 13, 16, 20, 33});
    int mode = choose(5); // which signals have names
    int nest = choose(3); // where a nested bus is
    std::vector<pooya::Signal> v;
    Tree t;
    std::vector<std::string> names;
    for (int i = 0; i < n; i++)
    {
        bool has = mode == 0 ? false : mode == 1 ? true : mode == 2 ? i % 2 == 0 : mode == 3 ? i == 0 : i == n - 1;
        // names that look like automatic ones are names like any other
        std::string nm = has ? (i % 3 == 0 ? "sig" + std::to_string(n - i) : "x y") : "";
        Tree c;
        c.label = "sig" + std::to_string(i);
        if (nest && i == (nest == 1 ? 0 : n - 1))
        {
            pooya::ScalarSignal in;
            pooya::Bus b({in}, nm);
            c.bus  = true;
            c.impl = &b.impl();
            Tree k;
            k.label = "sig0";
            k.impl  = &in.impl();
            c.kids.push_back(k);
            v.push_back(b);
        }
        else
        {
            auto s = sig_of(i, nm);
            c.impl = &s.impl();
            v.push_back(s);
        }
        t.kids.push_back(c);
        names.push_back(has ? valid(nm) : c.label);
    }
    pooya::Bus bus = make_bus(v);
    MC_LOG(n << " unlabelled signals, names " << mode << " nested " << nest);
    check_order(bus, t);
    for (int i = 0; i < n + 12; i++)
    {
        check_path(bus, t, "sig" + std::to_string(i));
        check_path(bus, t, "sig" + std::to_string(i) + ".sig0");
    }
    for (auto p : {"sig", "sig00", "sig01", "sig-1", "Sig0", "x_y", "0", ""}) check_path(bus, t, p);
    // stored again elsewhere: the first name stays, the other bus has its own labels
    if (n > 0)
    {
        std::vector<Labelled> w;
        Tree u;
        for (int i = n; i-- > 0;)
        {
            w.emplace_back("l" + std::to_string(i), v[i]);
            Tree c  = t.kids[i];
            c.label = "l" + std::to_string(i);
            u.kids.push_back(c);
        }
        pooya::Bus second = make_lbus(w, "second");
        check_order(second, u);
        check_order(bus, t);
        for (int i = 0; i < n + 2; i++)
        {
            check_path(second, u, "l" + std::to_string(i));
            check_path(second, u, "sig" + std::to_string(i));
            check_path(bus, t, "l" + std::to_string(i));
        }
    }
    for (int i = 0; i < n; i++) MC_CHECK(v[i].impl().name().str() == names[i], "signal " << i << " is called \"" << v[i].impl().name().str() << "\", expected \"" << names[i] << "\"");
    // a later rename of a signal changes no label
    for (auto& s : v) s.impl().rename("other");
    check_order(bus, t);
}
// every byte in a label
static void characters()
{
    int c  = choose(256);
    int at = choose(3);
    std::string l = at == 0 ? std::string(1, char(c)) + "x" : at == 1 ? std::string("x") + char(c) + "y" : std::string("x") + char(c);
    pooya::ScalarSignal s, o;
    pooya::Bus bus({{l, pooya::Signal(s)}, {"other", pooya::Signal(o)}}, l);
    Tree t, a, b;
    a.label = l;
    a.impl  = &s.impl();
    b.label = "other";
    b.impl  = &o.impl();
    t.kids  = {a, b};
    check_order(bus, t);
    check_path(bus, t, valid(l));
    check_path(bus, t, "other");
    if (c != '.') check_path(bus, t, l);
    MC_CHECK(s->name().str() == valid(l) && bus->name().str() == valid(l), "named \"" << s->name().str() << "\" and \"" << bus->name().str() << "\"");
}
// the same signal under several labels, typed lists, buses in blocks
static void sharing()
{
    int kind = choose(4);
    int n    = choose(3) + 1;
    using namespace pooya;
    ScalarSignal s, o("o");
    ArraySignal arr(2);
    Bus deep({{"s", Signal(s)}, {"arr", Signal(arr)}});
    Tree td, ks, ka;
    ks.label = "s";
    ks.impl  = &s.impl();
    ka.label = "arr";
    ka.impl  = &arr.impl();
    td.kids  = {ks, ka};
    std::vector<Labelled> v;
    Tree t;
    for (int i = 0; i < n; i++)
    {
        // one bus several times, and its members next to it
        v.emplace_back("d" + std::to_string(i), deep);
        Tree c  = td;
        c.bus   = true;
        c.label = "d" + std::to_string(i);
        c.impl  = &deep.impl();
        t.kids.push_back(c);
        v.emplace_back("m" + std::to_string(i), i % 2 ? Signal(arr) : Signal(s));
        Tree m  = i % 2 ? ka : ks;
        m.label = "m" + std::to_string(i);
        t.kids.push_back(m);
    }
    Bus bus = make_lbus(v);
    MC_CHECK(deep->name().str() == "d0" && s->name().str() == "s", "names " << deep->name().str() << ", " << s->name().str());
    if (kind == 0)
    {
        check_tree(bus, t);
        for (auto p : {"d0", "d0.s", "d0.arr", "d1.s", "d2.arr", "m0", "m1", "m2", "m0.s", "s", "d0.s.s", "d3"}) check_path(bus, t, p);
    }
    if (kind == 1)
    {
        // as the buses of a block
        Submodel m(nullptr, "m");
        Function f([](double, const Bus&, const Bus&) {}, &m, "f");
        Bus out = make_bus({o});
        f.connect(bus, out);
        check_tree(f.ibus(), t);
        MC_CHECK(&f.ibus().impl() == &bus.impl() && &f.obus().impl() == &out.impl(), "the block's buses are others");
        for (std::size_t i = 0; i < t.kids.size(); i++)
        {
            MC_CHECK(&f.input(i).impl() == t.kids[i].impl, "input(" << i << ")");
            MC_CHECK(&f.input<std::string>(t.kids[i].label).impl() == t.kids[i].impl, "input(\"" << t.kids[i].label << "\")");
        }
        MC_CHECK(&f.output(0).impl() == &o.impl(), "output(0)");
        MC_CHECK(&f.input<std::string>("d0.s").impl() == &s.impl(), "input(\"d0.s\")");
        MC_CHECK(mc::throws([&] { f.input(t.kids.size()); }) && mc::throws([&] { f.output(1); }), "a port that does not exist is found");
        MC_CHECK(mc::throws([&] { f.input<std::string>("d0.t"); }) && mc::throws([&] { f.output<std::string>("sig1"); }), "a port that does not exist is found");
    }
    if (kind == 2)
    {
        // lists of one type of signal
        ScalarSignal p, q("q");
        Bus b1({p, q});
        Tree u, up, uq;
        up.label = "sig0";
        up.impl  = &p.impl();
        uq.label = "sig1";
        uq.impl  = &q.impl();
        u.kids   = {up, uq};
        check_tree(b1, u);
        check_path(b1, u, "sig1");
        check_path(b1, u, "q");
        Bus b2({Bus::Base(b1), Bus::Base(b1)});
        MC_CHECK(b2.size() == 2 && &b2.at("sig1.sig0").impl() == &p.impl(), "a bus of buses");
        Bus empty;
        Tree e;
        check_tree(empty, e);
        check_path(empty, e, "sig0");
        check_path(empty, e, "");
    }
    if (kind == 3)
    {
        // what is found can be used: values go through
        ScalarSignal found(bus.at("d0.s"));
        found = 4.5;
        MC_CHECK(s->assigned() && double(ScalarSignal(bus.at("m0"))) == 4.5, "a signal found by path is not the signal itself");
        MC_CHECK(mc::throws([&] { ArraySignal wrong(bus.at("d0.s")); }) && mc::throws([&] { Bus wrong(bus.at("m0")); }) && mc::throws([&] { ScalarSignal wrong(bus.at("d0")); }), "a signal of the wrong type is accepted");
    }
}
// all lists of entries over two signals and a bus, with and without labels, the same one any number of times
static void repeated()
{
    using namespace pooya;
    int n = choose(mc::ex.thorough ? 6 : 5);
    ScalarSignal s, p("p");
    Bus in({{"q", Signal(p)}});
    std::vector<Labelled> v;
    Tree t;
    for (int i = 0; i < n; i++)
    {
        int who = choose(3), lab = choose(4);
        Tree c;
        c.label = lab == 0 ? "" : lab == 1 ? "a" : lab == 2 ? "b" : "sig1";
        Signal x = who == 0 ? Signal(s) : who == 1 ? Signal(p) : Signal(in);
        v.emplace_back(c.label, x);
        if (!lab) c.label = "sig" + std::to_string(i);
        c.impl = &x.impl();
        if (who == 2)
        {
            c.bus = true;
            Tree k;
            k.label = "q";
            k.impl  = &p.impl();
            c.kids.push_back(k);
        }
        t.kids.push_back(c);
    }
    // an entry without label is given by an empty one only where all have none
    bool none = true, some = false;
    for (auto& l : v) l.first.empty() ? some = true : none = false;
    if (some && !none) throw mc::Discard{};
    std::vector<Signal> plain;
    for (auto& l : v) plain.push_back(l.second);
    Bus bus = none ? make_bus(plain) : make_lbus(v);
    MC_LOG("entries: " << [&] {std::string r; for (auto& k : t.kids) r += k.label + (k.bus ? "(bus) " : " "); return r; }());
    check_order(bus, t);
    for (std::string q : {"a", "b", "sig0", "sig1", "sig2", "sig3", "c", "a.q", "b.q", "sig0.q", "sig1.q", "a.p", "q"})
    {
        // two entries under one label: no verdict which of them is found, but one of them is
        std::set<SignalImpl*> can;
        for (auto& k : t.kids)
            if (k.label == q.substr(0, q.find('.'))) can.insert(k.impl);
        if (can.size() < 2) check_path(bus, t, q);
    }
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv, {{"flat", flat}, {"trees", trees}, {"automatic labels", automatic}, {"characters", characters}, {"sharing", sharing}, {"repeated entries", repeated}});
}
