// C22: visit and const_visit over all block trees, level limits, starting levels and stopping points
#include <limits>
#include "ref.hpp"
using namespace ref;

struct Tree
{
    std::vector<int> parent; // of node i > 0 (a submodel before it)
    std::vector<char> sub;
    std::vector<int> order; // in which the nodes are linked to their parents
    std::vector<std::unique_ptr<pooya::Block>> b;
    std::string text() const { return "parents " + mc::str(parent) + " submodels " + mc::str(std::vector<int>(sub.begin(), sub.end())) + " linked in the order " + mc::str(order); }
    std::vector<int> children(int i) const
    {
        std::vector<int> r;
        for (int k : order)
            if (parent[k] == i) r.push_back(k);
        return r;
    }
    // parents first, with levels
    void expect(int i, uint64_t level, uint64_t max, std::vector<std::pair<int, uint64_t>>& out) const
    {
        if (level > max) return;
        out.push_back({i, level});
        for (int c : children(i)) expect(c, level + 1, max, out);
    }
    int index(const pooya::Block& x) const
    {
        for (std::size_t i = 0; i < b.size(); i++)
            if (b[i].get() == &x) return int(i);
        return -1;
    }
};
static std::unique_ptr<pooya::Block> leaf(int kind, pooya::Submodel* par, const std::string& nm)
{
    switch (kind % 5)
    {
    case 0: return std::make_unique<pooya::Gain>(2.0, par, nm);
    case 1: return std::make_unique<pooya::Integrator>(1.0, par, nm);
    case 2: return std::make_unique<pooya::MemoryA>(Array(3), par, nm);
    case 3: return std::make_unique<pooya::Add>(0.0, par, nm);
    default: return std::make_unique<pooya::Source>([](double t) { return t; }, par, nm);
    }
}
struct Sub : pooya::Submodel // a user's submodel
{
    using pooya::Submodel::Submodel;
};
// ways: 0 made with the parent, 1 made first and added, 2 made first and given the parent, 3 mixed, some twice
static void make(Tree& t, int way)
{
    int n = int(t.parent.size());
    t.b.resize(n);
    auto name = [&](int i) { return "b" + std::to_string(i % 3); }; // names need not be unique
    auto mk   = [&](int i, pooya::Submodel* p)
    {
        if (!t.sub[i]) return leaf(i, p, name(i));
        return std::unique_ptr<pooya::Block>(i % 2 ? std::make_unique<Sub>(p, name(i)) : std::make_unique<pooya::Submodel>(p, name(i)));
    };
    auto par = [&](int i) { return static_cast<pooya::Submodel*>(t.b[t.parent[i]].get()); };
    if (way == 0)
    {
        t.b[0] = mk(0, nullptr);
        for (int i : t.order)
            if (i) t.b[i] = mk(i, par(i));
        return;
    }
    for (int i = 0; i < n; i++) t.b[i] = mk(i, nullptr);
    for (int i : t.order)
    {
        if (!i) continue;
        int w = way == 3 ? i % 3 : way;
        bool r = w == 2 || !t.sub[i] ? t.b[i]->set_parent(*par(i)) : par(i)->add_block(*t.b[i]);
        MC_CHECK(r, "a block was not accepted");
        if (way == 3 && i % 2)
        {
            MC_CHECK(t.b[i]->set_parent(*par(i)), "setting the same parent again was refused");
            par(i)->link_block(*t.b[i]);
        }
    }
    mc::take_output();
}
static void check_visit(Tree& t, int root, uint32_t level, const uint32_t* max, int stop, bool cnst, const std::string& what)
{
    std::vector<std::pair<int, uint64_t>> want, got;
    t.expect(root, level, max ? *max : std::numeric_limits<uint32_t>::max(), want);
    bool stopped = stop >= 0 && stop < int(want.size());
    if (stopped) want.resize(stop + 1);
    int n     = 0;
    auto each = [&](const pooya::Block& x, uint32_t l)
    {
        got.push_back({t.index(x), l});
        return n++ != stop;
    };
    bool ret;
    const pooya::Block& cb = *t.b[root];
    if (cnst)
        ret = max ? cb.const_visit(each, level, *max) : cb.const_visit(each, level);
    else
        ret = max ? t.b[root]->visit(each, level, *max) : t.b[root]->visit(each, level);
    auto show = [](const std::vector<std::pair<int, uint64_t>>& v)
    {
        std::string s;
        for (auto& p : v) s += " " + std::to_string(p.first) + "@" + std::to_string(p.second);
        return s;
    };
    auto ctx = [&] { return what + (cnst ? "const_visit" : "visit") + " from block " + std::to_string(root) + " level " + std::to_string(level) + (max ? " up to level " + std::to_string(*max) : "") + " stop " + std::to_string(stop) + ", " + t.text(); };
    if (got != want) MC_FAIL(ctx() << ": visited" << show(got) << ", expected" << show(want));
    if (ret != !stopped) MC_FAIL(ctx() << ": returned " << ret);
    mc::ex.transition(got.size() + 1);
    uint64_t h = cnst;
    for (auto& p : got) h = mc::mix(h, mc::mix(p.first, p.second));
    mc::ex.observe(h);
}
static Tree enum_tree(int n, bool ordered)
{
    Tree t;
    t.parent.assign(n, -1);
    t.sub.assign(n, 0);
    for (int i = 0; i < n; i++) t.sub[i] = i == 0 && n > 1 ? 1 : char(choose(2));
    for (int i = 1; i < n; i++)
    {
        std::vector<int> subs;
        for (int k = 0; k < i; k++)
            if (t.sub[k]) subs.push_back(k);
        t.parent[i] = pick(subs);
    }
    if (ordered)
        for (int i = 0; i < n; i++) t.order.push_back(i);
    return t;
}
// every root, level limit, starting level and stopping point
static void limits()
{
    int n   = choose(mc::ex.thorough ? 7 : 6) + 1;
    Tree t  = enum_tree(n, true);
    int way = choose(4);
    make(t, way);
    MC_LOG(t.text());
    for (int root = 0; root < n; root++)
    {
        std::vector<std::pair<int, uint64_t>> all;
        t.expect(root, 0, 1000, all);
        for (int cnst = 0; cnst < 2; cnst++)
            for (uint32_t level : {0u, 1u, 5u, 0xfffffff0u})
            {
                for (int stop = -1; stop <= int(all.size()); stop++)
                {
                    check_visit(t, root, level, nullptr, stop, cnst, "");
                    for (uint32_t d = 0; d <= 6; d++)
                    {
                        if (level == 0 && d == 0) continue;
                        uint32_t max = level + d - 1; // one less than the start, up to more than the depth
                        check_visit(t, root, level, &max, stop, cnst, "");
                    }
                    uint32_t max = 0xffffffffu;
                    check_visit(t, root, level, &max, stop, cnst, "");
                }
                uint32_t zero = 0;
                check_visit(t, root, level, &zero, -1, cnst, "");
            }
    }
}
// siblings linked in every order, also deep ones before their parents
static void orders()
{
    int n   = choose(mc::ex.thorough ? 6 : 5) + 1;
    Tree t  = enum_tree(n, false);
    int way = 1 + choose(3);
    for (int i : mc::permutation(n - 1)) t.order.push_back(i + 1);
    make(t, way);
    MC_LOG(t.text());
    for (int root = 0; root < n; root++)
        for (int cnst = 0; cnst < 2; cnst++)
            for (uint32_t max = 0; max < 5; max++)
                for (int stop = -1; stop < n; stop++) check_visit(t, root, 0, &max, stop, cnst, "");
    check_visit(t, 0, 0, nullptr, -1, false, "");
}
// what happened before does not matter: refused parents, partial visits, visits inside a visit, blocks added between
static void histories()
{
    int n  = 2 + choose(mc::ex.thorough ? 5 : 3);
    Tree t = enum_tree(n, true);
    make(t, 1);
    pooya::Submodel other(nullptr, "other");
    std::string txt;
    for (int k = 0; k < 2; k++)
        switch (choose(5))
        {
        case 0:
        {
            int i = 1 + choose(n - 1);
            MC_CHECK(!t.b[i]->set_parent(other), "a second parent was accepted");
            MC_CHECK(!other.add_block(*t.b[i]), "a second parent was accepted");
            txt += "second parent for " + std::to_string(i) + "; ";
            break;
        }
        case 1:
        {
            int at = choose(n);
            check_visit(t, 0, 0, nullptr, at, false, txt);
            check_visit(t, 0, 0, nullptr, at, true, txt);
            txt += "visit stopped at " + std::to_string(at) + "; ";
            break;
        }
        case 2:
        {
            // inside a visit, visit again
            int at = choose(n), m = 0;
            auto inner = [&](const pooya::Block& x, uint32_t l) -> bool
            {
                if (m++ == at)
                {
                    int r = t.index(x);
                    check_visit(t, r, l, nullptr, -1, false, txt + "inside a visit: ");
                    check_visit(t, r, 0, nullptr, 0, true, txt + "inside a visit: ");
                    check_visit(t, 0, 0, nullptr, 1, true, txt + "inside a visit: ");
                }
                return true;
            };
            MC_CHECK(t.b[0]->visit(inner, 0), "a complete visit returned false");
            MC_CHECK(m == int(t.parent.size()), "a visit with visits inside visited " << m << " blocks of " << t.parent.size());
            txt += "visit inside a visit; ";
            break;
        }
        case 3:
        {
            // an exception leaves the visit
            int at = choose(n), m = 0;
            struct E
            {
            };
            try
            {
                t.b[0]->visit([&](pooya::Block&, uint32_t) -> bool { if (m++ == at) throw E{}; return true; }, 0);
                MC_FAIL("the visitor's exception was lost");
            }
            catch (E)
            {
            }
            MC_CHECK(m == at + 1, "the visit went on after an exception");
            txt += "visitor threw at " + std::to_string(at) + "; ";
            break;
        }
        default:
        {
            std::vector<int> subs;
            for (int i = 0; i < int(t.parent.size()); i++)
                if (t.sub[i]) subs.push_back(i);
            int p = pick(subs);
            t.parent.push_back(p);
            t.sub.push_back(char(choose(2)));
            t.order.push_back(int(t.parent.size()) - 1);
            auto* par = static_cast<pooya::Submodel*>(t.b[p].get());
            t.b.push_back(t.sub.back() ? std::unique_ptr<pooya::Block>(std::make_unique<pooya::Submodel>(par, "late")) : leaf(choose(5), par, "late"));
            txt += "a block added to " + std::to_string(p) + "; ";
        }
        }
    mc::take_output();
    MC_LOG(t.text() << "; " << txt);
    for (int cnst = 0; cnst < 2; cnst++)
        for (uint32_t max = 0; max < 4; max++)
            for (int stop = -1; stop < n; stop++) check_visit(t, 0, 0, &max, stop, cnst, txt);
    std::vector<std::pair<int, uint64_t>> none;
    int k = 0;
    other.visit([&](pooya::Block&, uint32_t) { k++; return true; }, 0);
    MC_CHECK(k == 1, "a refused block was added to the other submodel");
}
// wide and deep trees
static void large()
{
    int shape = choose(4), n = pick({1, 2, 9, 17, 33, 70});
    Tree t;
    for (int i = 0; i < n; i++)
    {
        t.sub.push_back(shape == 0 ? i == 0 : 1);
        t.parent.push_back(i == 0 ? -1 : shape == 0 ? 0 : shape == 1 ? i - 1 : shape == 2 ? (i - 1) / 2 : i % 2 ? 0 : i - 1);
        t.order.push_back(i);
    }
    make(t, choose(4));
    for (int cnst = 0; cnst < 2; cnst++)
        for (int stop = -1; stop <= n; stop++)
        {
            check_visit(t, 0, 0, nullptr, stop, cnst, "");
            for (uint32_t max = 0; max < uint32_t(n) + 2; max += 1 + max / 3) check_visit(t, 0, 0, &max, stop, cnst, "");
        }
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv, {{"limits", limits}, {"orders", orders}, {"histories", histories}, {"large", large}});
}
