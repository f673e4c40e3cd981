// C18: names and full names.
#include "ref.hpp"
using namespace ref;

static std::string valid(std::string s)
{
    for (char& c : s)
        if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_')) c = '_';
    return s;
}
static std::string show(const std::string& s)
{
    std::ostringstream o;
    for (unsigned char c : s)
        if (c > 32 && c < 127)
            o << c;
        else
            o << "<" << int(c) << ">";
    return o.str();
}
// every way to give a name; returns the name that results
static const int NWays = 33;
static std::string give(int way, const std::string& n, std::string& what)
{
    using namespace pooya;
    Submodel par(nullptr, "par");
    auto nm = [](const auto& x) { return x.name().str(); };
    switch (way)
    {
    case 0: what = "ScalarSignal"; return nm(ScalarSignal(n).impl());
    case 1: what = "IntSignal"; return nm(IntSignal(n).impl());
    case 2: what = "BoolSignal"; return nm(BoolSignal(n).impl());
    case 3: what = "ArraySignal"; return nm(ArraySignal(2, n).impl());
    case 4: what = "Bus"; return nm(Bus({}, n).impl());
    case 5: what = "Submodel"; return nm(Submodel(nullptr, n));
    case 6: what = "Submodel in a submodel"; return nm(Submodel(&par, n));
    case 7:
    {
        what = "renamed signal";
        ScalarSignal s("old");
        s->rename(n);
        return nm(s.impl());
    }
    case 8:
    {
        what = "renamed bus";
        Bus b({}, "old");
        b->rename(n);
        return nm(b.impl());
    }
    case 9:
    {
        what = "renamed block";
        Gain b(1, &par, "old");
        b.rename(n);
        return nm(b);
    }
    case 10:
    {
        what = "renamed submodel";
        Submodel b(nullptr, "old");
        b.rename(n);
        b.rename("other one");
        b.rename(n);
        return nm(b);
    }
    case 11:
    {
        what = "label of an unnamed signal";
        ScalarSignal s;
        Bus b({{n, Signal(s)}});
        return nm(s.impl());
    }
    case 12:
    {
        what = "label";
        ScalarSignal s("named");
        Bus b({{n, Signal(s)}});
        return b.begin()->first;
    }
    case 13:
    {
        what = "renamed array signal";
        ArraySignal s(2);
        s->rename(n);
        return nm(s.impl());
    }
    case 14: what = "ValidName"; return ValidName(n).str();
    case 15:
    {
        what = "ValidName assigned";
        ValidName v("old");
        v = std::string_view(n);
        return v.str();
    }
    case 16: what = "ValidName::emend"; return ValidName::emend(std::string_view(n));
    case 17:
    {
        what = "label of an unnamed bus";
        Bus in;
        Bus b({{n, Signal(in)}});
        return nm(in.impl());
    }
    case 18:
    {
        what = "NamedObject";
        NamedObject o{ValidName(n)};
        return nm(o);
    }
    case 19:
    {
        what = "NamedObject renamed";
        NamedObject o;
        o.rename(n);
        return nm(o);
    }
    default:
    {
        // the blocks
        static const Kind ks[] = {KConst, KSource, KGain, KPipe, KAdd, KSub, KMul, KDiv, KSiso, KFunc, KMem, KDelay, KInteg};
        Node nd;
        nd.k    = ks[way - 20];
        nd.name = n;
        what    = kind_name(nd.k);
        return make_block(nd, &par)->name().str();
    }
    }
}
static void check_give(int way, const std::string& n)
{
    std::string what;
    std::string got = give(way, n, what);
    mc::ex.observe(std::uint64_t(std::hash<std::string>()(got)));
    MC_CHECK(got == valid(n), what << ": the name \"" << show(n) << "\" becomes \"" << show(got) << "\", expected \"" << show(valid(n)) << "\"");
}
static void bytes()
{
    int c   = choose(256);
    int way = choose(NWays);
    int pos = choose(4);
    std::string n = pos == 0 ? std::string(1, char(c)) : pos == 1 ? std::string(1, char(c)) + "a1" : pos == 2 ? std::string("Z_") + char(c) + "z" : std::string("09") + char(c);
    MC_LOG(way << " \"" << show(n) << "\"");
    check_give(way, n);
}
static void strings()
{
    static const std::string cs = std::string("aZ09_ ./-\n\x7f\xc3\xff", 13) + std::string(1, '\0');
    int way = choose(NWays);
    int len = choose(mc::ex.thorough ? 5 : 3);
    std::string n;
    for (int i = 0; i < len; i++) n += cs[choose(int(cs.size()))];
    check_give(way, n);
    if (len == 2)
    {
        // long ones keep their length
        std::string l;
        for (int i = 0; i < 500; i++) l += n;
        check_give(way, l);
    }
}
// all blocks take the name they are given
static void blocks()
{
    int k  = choose(int(KNumKinds));
    int ty = choose(4);
    int how = choose(4);
    std::string n = pick({std::string("x"), std::string("a b.c/d"), std::string("")});
    if (k == KFunc || k == KSources) ty = 0;
    if (ty == TB && !(k == KConst || k == KSource || k == KPipe || k == KMem)) ty = 0;
    if (ty == TI && (k == KDelay || k == KDeriv || k == KInit || k == KInteg || k == KTrig || k == KSiso || k == KSo)) ty = 3;
    Node nd;
    nd.k    = Kind(k);
    nd.ty   = Ty(ty);
    nd.size = ty == TA ? 3 : 1;
    nd.p    = zero(nd.ty, nd.size);
    nd.name = n;
    pooya::Submodel m(nullptr, "m/m"), m2(&m, "in");
    auto b = make_block(nd, how == 0 ? nullptr : how == 1 ? &m : &m2);
    if (how == 3) b = make_block(nd, nullptr), b->set_parent(m2);
    std::string full = b->full_name().str();
    if (!full.empty() && full[0] == '/') full = full.substr(1);
    std::string want = (how == 0 ? "" : how == 1 ? "m_m/" : "m_m/in/") + valid(n);
    MC_CHECK(b->name().str() == valid(n), kind_name(k) << " is called \"" << b->name().str() << "\", expected \"" << valid(n) << "\"");
    MC_CHECK(full == want, kind_name(k) << " has the full name \"" << full << "\", expected \"" << want << "\"");
}
// trees of submodels; renaming and adopting
static void full_names()
{
    using namespace pooya;
    const int n = mc::ex.thorough ? 6 : 5;
    // parent[i] < i or -1 (none, adopted later perhaps)
    std::vector<int> parent(n, -1);
    std::vector<std::string> name(n);
    std::vector<std::unique_ptr<Block>> b;
    static const std::vector<std::string> nm{"root", "a b", "a", "", "x.y", "_1"};
    int leafs = choose(2);
    for (int i = 0; i < n; i++)
    {
        parent[i] = i == 0 ? -1 : choose(i + 1) - 1;
        if (leafs && i == n - 1 && parent[i] < 0) parent[i] = 0;
        Submodel* p = parent[i] < 0 ? nullptr : static_cast<Submodel*>(b[parent[i]].get());
        name[i]     = nm[i];
        if (leafs && i == n - 1)
            b.push_back(std::make_unique<Gain>(1, p, name[i]));
        else
            b.push_back(std::make_unique<Submodel>(p, name[i]));
    }
    auto check = [&](const std::string& when)
    {
        for (int i = 0; i < n; i++)
        {
            std::string want = valid(name[i]);
            for (int p = parent[i]; p >= 0; p = parent[p]) want = valid(name[p]) + "/" + want;
            std::string full = b[i]->full_name().str();
            if (full == "/" + want) full = want;
            mc::ex.observe(std::uint64_t(std::hash<std::string>()(full)));
            MC_CHECK(full == want, when << ": the full name of block " << i << " is \"" << full << "\", expected \"" << want << "\"; parents " << mc::str(parent));
        }
    };
    check("as made");
    // adopt a root by another block that is not inside it
    int steps = 2;
    for (int s = 0; s < steps; s++)
    {
        int op = choose(3);
        if (op == 0) break;
        if (op == 1)
        {
            int i   = choose(n);
            name[i] = pick({std::string("new one"), std::string("q")});
            b[i]->rename(name[i]);
            check("after renaming block " + std::to_string(i));
        }
        else
        {
            int i = choose(n), p = choose(n);
            if (parent[i] >= 0 || (leafs && p == n - 1)) throw mc::Discard{};
            for (int k = p; k >= 0; k = parent[k])
                if (k == i) throw mc::Discard{};
            if (choose(2))
                b[i]->set_parent(static_cast<Submodel&>(*b[p]));
            else
                static_cast<Submodel&>(*b[p]).add_block(*b[i]);
            parent[i] = p;
            check("after adoption of block " + std::to_string(i) + " by " + std::to_string(p));
        }
    }
    MC_LOG("parents " << mc::str(parent));
}
// very deep nesting
static void deep()
{
    using namespace pooya;
    int n = pick({1, 10, 40, 100});
    std::vector<std::unique_ptr<Submodel>> s;
    std::string want;
    for (int i = 0; i < n; i++)
    {
        s.push_back(std::make_unique<Submodel>(i ? s[i - 1].get() : nullptr, "level " + std::to_string(i)));
        want += (i ? "/" : "") + valid("level " + std::to_string(i));
        std::string full = s[i]->full_name().str();
        MC_CHECK(full == want || full == "/" + want, "the full name at level " << i << " is \"" << full << "\"");
    }
    s[0]->rename("top");
    std::string full = s[n - 1]->full_name().str();
    want             = "top" + want.substr(std::string("level_0").size());
    MC_CHECK(full == want || full == "/" + want, "the full name at level " << n << " is \"" << full << "\" after renaming the outermost submodel");
}
// joining valid names
static void joining()
{
    using pooya::ValidName;
    static const std::vector<std::string> v{"a", "", "a b", "c.d", "e/f"};
    const std::string &x = pick(v), &y = pick(v), &z = pick(v);
    ValidName a(x);
    MC_CHECK((a | y).str() == valid(x) + "." + valid(y) && (a / y).str() == valid(x) + "/" + valid(y), "joined: \"" << (a | y).str() << "\" and \"" << (a / y).str() << "\"");
    MC_CHECK(((a / y) | z).str() == valid(x) + "/" + valid(y) + "." + valid(z), "joined twice: \"" << ((a / y) | z).str() << "\"");
    MC_CHECK((a / (ValidName(y) / z)).str() == valid(x) + "/" + valid(y) + "/" + valid(z), "joined with a joined name: \"" << (a / (ValidName(y) / z)).str() << "\"");
    MC_CHECK(a.str() == valid(x), "joining changed the name");
    ValidName c(a), e;
    e = a;
    MC_CHECK(c.str() == valid(x) && e.str() == valid(x), "copies differ");
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv, {{"bytes", bytes}, {"strings", strings}, {"blocks", blocks}, {"full names", full_names}, {"deep", deep}, {"joining", joining}});
}
