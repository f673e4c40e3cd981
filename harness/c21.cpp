// C21: every program runs in a debug and in a release build of the library, both loaded side by side.
#include <dlfcn.h>
#include <string>
#include "mc.hpp"

struct Result
{
    std::vector<double> values;
    std::vector<std::string> texts; // what the values are
    std::string error;
};
static Result* sink = nullptr;
static std::vector<int>* script = nullptr; // choices to repeat
static std::size_t script_pos   = 0;
static std::vector<int> made;
static int choose_cb(int n)
{
    if (script)
    {
        if (script_pos >= script->size()) throw mc::Violation{"the release build asks for more choices than the debug build"};
        int r = (*script)[script_pos++];
        if (r >= n) throw mc::Violation{"the release build offers other choices than the debug build (" + std::to_string(n) + ")"};
        return r;
    }
    int r = mc::choose(n);
    made.push_back(r);
    return r;
}
static void value_cb(double v, const char* what)
{
    sink->values.push_back(v);
    sink->texts.push_back(what);
}
using RunFn = int (*)(int, int, int (*)(int), void (*)(double, const char*), char*, int);
static RunFn load(const char* name)
{
    std::string exe(4096, 0);
    exe.resize(readlink("/proc/self/exe", &exe[0], 4095));
    std::string path = exe.substr(0, exe.rfind('/') + 1) + name;
    void* h          = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h)
    {
        std::fprintf(stderr, "%s\n", dlerror());
        _exit(3);
    }
    return reinterpret_cast<RunFn>(dlsym(h, "c21_run"));
}
static int run(RunFn f, int scope, Result& r)
{
    char buf[4000] = "";
    sink           = &r;
    int rc         = f(scope, mc::ex.thorough, choose_cb, value_cb, buf, sizeof buf);
    r.error        = buf;
    return rc;
}
static void both(int scope)
{
    static RunFn dbg = load("dbg.so"), rel = load("rel.so");
    Result a, b;
    made.clear();
    script = nullptr;
    int ra = run(dbg, scope, a);
    if (ra == 2) MC_FAIL(a.error);
    if (ra == 1) throw mc::Discard{}; // the program raises an error
    auto choices = made;
    script       = &choices;
    script_pos   = 0;
    int rb       = run(rel, scope, b);
    script       = nullptr;
    MC_LOG("choices " << mc::str(choices) << ": " << a.values.size() << " values");
    if (rb) MC_FAIL("the release build fails where the debug build does not: " << b.error);
    for (std::size_t i = 0; i < std::max(a.values.size(), b.values.size()); i++)
    {
        if (i >= a.values.size() || i >= b.values.size()) MC_FAIL("debug build: " << a.values.size() << " values, release build: " << b.values.size());
        if (!mc::close(a.values[i], b.values[i], 1e-9) || a.texts[i] != b.texts[i])
            MC_FAIL("value " << i << ": " << a.texts[i] << " is " << a.values[i] << " in the debug build; " << b.texts[i] << " is " << b.values[i] << " in the release build");
        mc::ex.observe(a.values[i]);
    }
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"models", [] { both(0); }},
                         {"step control", [] { both(1); }},
                         {"signals", [] { both(2); }},
                         {"histories", [] { both(3); }},
                         {"buses and names", [] { both(4); }},
                         {"structure", [] { both(5); }},
                         {"bus blocks", [] { both(6); }},
                         {"small steps", [] { both(7); }}});
}
