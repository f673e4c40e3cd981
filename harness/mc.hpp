// Stateless exhaustive explorer.  A scope is a function that builds a scenario out of choose(n) calls,
// drives the real library with it and compares every step with an oracle.  The explorer runs the scope once
// for every complete sequence of choices (depth first), each execution from scratch.
#pragma once
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc
{
inline std::stringbuf captured; // what the library prints
struct Skip
{
};
struct Discard // the scenario is outside the property's scope (for example a numeric tie): no verdict
{
};
struct Violation
{
    std::string msg;
};

inline uint64_t mix(uint64_t h, uint64_t x)
{
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

struct Shared // survives a crash of the worker
{
    uint32_t scope;
    uint32_t len;
    uint32_t active;
    int32_t path[4000];
};

inline void reset_trail();
class Explorer
{
public:
    std::vector<int> path, arity;
    std::size_t pos{0};
    bool replaying{false}, verbose{false};
    int nshards{1}, shard{0};
    bool thorough{false};
    uint64_t executions{0}, transitions{0}, discarded{0}, replays{0};
    std::unordered_set<uint64_t> states, outcomes;
    std::map<std::string, uint64_t> per_scope;
    std::string log;
    uint64_t outcome{0};
    Shared* sh{nullptr};

    int choose(int n)
    {
        if (n <= 0) throw Violation{"harness: choose(0)"};
        int r;
        if (pos < path.size())
        {
            r = path[pos];
            if (r >= n || (pos < arity.size() && arity[pos] != n))
                throw Violation{"the same scenario behaved differently when it was run again (choice " +
                                std::to_string(pos) + ")"};
            if (pos >= arity.size()) arity.push_back(n);
        }
        else
        {
            r = 0;
            path.push_back(0);
            arity.push_back(n);
        }
        if (sh && pos < 4000)
        {
            sh->path[pos] = r;
            sh->len       = pos + 1;
        }
        pos++;
        if (!replaying && !_decided)
        {
            _prod *= n;
            if (_prod >= 24.0 * nshards) _decide();
        }
        return r;
    }

    void state(uint64_t h) { states.insert(h); }
    void transition(uint64_t n = 1) { transitions += n; }
    int mute{0}; // > 0: what is observed does not count (work that is cached between executions)
    void observe(uint64_t h)
    {
        if (mute) return;
        outcome = mix(outcome, h);
        states.insert(mix(outcome, _scope_hash));
    }
    void observe(double d)
    {
        if (d == 0) d = 0;
        if (std::isnan(d)) d = 12345.678;
        uint64_t u;
        std::memcpy(&u, &d, 8);
        observe(u);
        transitions++;
    }

    // returns false when the scope is exhausted
    void run_scope(int index, const std::string& name, const std::function<void()>& body, double deadline)
    {
        path.clear();
        arity.clear();
        _last_prefix.clear();
        _ord        = -1;
        _scope_hash = mix(77, index);
        uint64_t n  = 0;
        for (;;)
        {
            bool counted = run_once(index, body);
            if (counted)
            {
                n++;
                executions++;
                outcomes.insert(outcome);
                if (n == 1 || n == 500 || n % 20000 == 0)
                {
                    // the same choices again have to give the same observations
                    uint64_t o     = outcome;
                    auto states_n  = states.size();
                    auto trans     = transitions;
                    replaying      = true;
                    run_once(index, body);
                    replaying = false;
                    replays++;
                    transitions = trans;
                    if (o != outcome || states.size() != states_n)
                        throw Violation{"the same scenario gave different values when it was run again"};
                }
            }
            if (!advance()) break;
            if (now() > deadline)
            {
                capped = true;
                break;
            }
        }
        per_scope[name] += n;
    }

    bool run_once(int index, const std::function<void()>& body)
    {
        reset_trail();
        pos      = 0;
        outcome  = mix(1, index);
        _prod    = 1;
        _decided = false;
        log.clear();
        if (captured.in_avail() > 0 || !captured.str().empty()) captured.str("");
        if (sh)
        {
            sh->scope  = index;
            sh->len    = 0;
            sh->active = 1;
        }
        arm(20);
        try
        {
            body();
        }
        catch (const Skip&)
        {
            path.resize(pos);
            arity.resize(pos);
            return false;
        }
        catch (const Discard&)
        {
            discarded++;
            return false;
        }
        catch (const std::exception& e)
        {
            throw Violation{std::string("unexpected exception: ") + e.what()};
        }
        if (pos < path.size()) throw Violation{"the same scenario ended earlier when it was run again"};
        if (sh) sh->active = 0;
        if (!replaying && !_decided)
        {
            try
            {
                _decide();
            }
            catch (const Skip&)
            {
                return false;
            }
        }
        return true;
    }

    bool advance()
    {
        path.resize(pos);
        arity.resize(pos);
        while (!path.empty())
        {
            if (path.back() + 1 < arity.back())
            {
                path.back()++;
                arity.resize(path.size());
                return true;
            }
            path.pop_back();
            arity.pop_back();
        }
        return false;
    }

    static double now()
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }
    static void arm(int sec)
    {
        itimerval it{};
        it.it_value.tv_sec = sec * hang_factor;
        setitimer(ITIMER_VIRTUAL, &it, nullptr);
    }
    static inline int hang_factor = 1;
    bool capped{false};

private:
    double _prod{1};
    bool _decided{false};
    long _ord{-1};
    uint64_t _scope_hash{0};
    std::vector<int> _last_prefix{-1};
    void _decide()
    {
        _decided = true;
        std::vector<int> prefix(path.begin(), path.begin() + pos);
        if (_ord < 0 || prefix != _last_prefix)
        {
            _ord++;
            _last_prefix = prefix;
        }
        if (_ord % nshards != shard) throw Skip{};
    }
};

inline Explorer ex;
struct Mute
{
    Mute() { ex.mute++; }
    ~Mute() { ex.mute--; }
};

inline int (*choose_elsewhere)(int) = nullptr; // the choices are made by the program that loaded this library
inline int choose_untracked(int n) { return choose_elsewhere ? choose_elsewhere(n) : ex.choose(n); }
inline uint64_t trail = 1; // hash of the choices made so far in this execution
inline int choose(int n)
{
    int r = choose_untracked(n);
    trail = mix(trail, uint64_t(r) * 64 + n);
    return r;
}
inline void reset_trail() { trail = 1; }
// a secondary dimension that is not enumerated but varies with the choices made so far
inline int spread(int n) { return int((trail >> 20) % uint64_t(n)); }
template<typename T>
inline const T& pick(const std::vector<T>& v)
{
    return v[choose(int(v.size()))];
}
template<typename T>
inline T pick(std::initializer_list<T> v)
{
    return *(v.begin() + choose(int(v.size())));
}
// one of all permutations of 0..n-1
inline std::vector<int> permutation(int n)
{
    std::vector<int> left, ret;
    for (int i = 0; i < n; i++) left.push_back(i);
    for (int i = 0; i < n; i++)
    {
        int k = choose(int(left.size()));
        ret.push_back(left[k]);
        left.erase(left.begin() + k);
    }
    return ret;
}
template<typename T>
std::string str(const T& v)
{
    std::ostringstream o;
    o.precision(17);
    o << v;
    return o.str();
}
template<typename T>
std::string str(const std::vector<T>& v)
{
    std::ostringstream o;
    o.precision(12);
    o << "[";
    for (std::size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i];
    o << "]";
    return o.str();
}
#define MC_LOG(x)                                                                                                      \
    do                                                                                                                 \
    {                                                                                                                  \
        if (mc::ex.verbose)                                                                                            \
        {                                                                                                              \
            std::ostringstream o__;                                                                                    \
            o__.precision(12);                                                                                         \
            o__ << x << "\n";                                                                                          \
            mc::ex.log += o__.str();                                                                                   \
        }                                                                                                              \
    } while (0)
#define MC_FAIL(x)                                                                                                     \
    do                                                                                                                 \
    {                                                                                                                  \
        std::ostringstream o__;                                                                                        \
        o__.precision(12);                                                                                             \
        o__ << x;                                                                                                      \
        throw mc::Violation{o__.str()};                                                                                \
    } while (0)
#define MC_CHECK(c, x)                                                                                                 \
    do                                                                                                                 \
    {                                                                                                                  \
        mc::ex.transition();                                                                                           \
        if (!(c)) MC_FAIL(x);                                                                                          \
    } while (0)

inline bool close(double a, double b, double tol = 1e-9)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b)));
}

// true if f throws a std::exception
template<typename F>
bool throws(F&& f)
{
    try
    {
        f();
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}

struct Scope
{
    std::string name;
    std::function<void()> body;
    int tier{1}; // 1: quick and thorough, 2: thorough only
};

inline std::string take_output()
{
    std::string s = captured.str();
    captured.str("");
    return s;
}

inline std::string json_str(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += char(c);
        }
        else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c > 126)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += char(c);
    }
    return r + "\"";
}

inline void on_hang(int)
{
    static const char m[] = "HANG: one execution used more CPU time than its limit\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(12);
}

// worker:  <exe> --tier quick|thorough --shard i/n --out FILE --budget SEC --shared FILE
// replay:  <exe> --tier T --replay scope:c,c,c --out FILE
inline int run_main(int argc, char** argv, const std::vector<Scope>& scopes)
{
    if (!std::getenv("MC_CHILD"))
    {
        setenv("MC_CHILD", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::string out, replay, shared;
    double budget = 1e9;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--tier")
            ex.thorough = v == "thorough";
        else if (a == "--shard")
            std::sscanf(v.c_str(), "%d/%d", &ex.shard, &ex.nshards);
        else if (a == "--out")
            out = v;
        else if (a == "--budget")
            budget = std::stod(v);
        else if (a == "--replay")
            replay = v;
        else if (a == "--shared")
            shared = v;
        else if (a == "--hang-factor")
            Explorer::hang_factor = std::stoi(v);
    }
    signal(SIGVTALRM, on_hang);
    auto* cout_buf = std::cout.rdbuf(&captured);
    if (!shared.empty())
    {
        int fd = open(shared.c_str(), O_RDWR | O_CREAT, 0644);
        if (ftruncate(fd, sizeof(Shared)) == 0)
        {
            void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) ex.sh = static_cast<Shared*>(p);
        }
        ::close(fd);
    }
    int rc = 0;
    std::string violation, vpath, vlog;
    std::vector<std::string> samples;
    int cur        = 0;
    auto path_text = [&]()
    {
        std::string s = std::to_string(cur) + ":";
        for (std::size_t i = 0; i < ex.pos && i < ex.path.size(); i++) s += (i ? "," : "") + std::to_string(ex.path[i]);
        return s;
    };
    double t0 = Explorer::now();
    try
    {
        if (!replay.empty())
        {
            cur          = std::stoi(replay);
            ex.replaying = ex.verbose = true;
            std::string rest = replay.substr(replay.find(':') + 1);
            std::stringstream ss(rest);
            std::string tok;
            while (std::getline(ss, tok, ',')) ex.path.push_back(std::stoi(tok));
            ex.run_once(cur, scopes.at(cur).body);
            ex.executions++;
        }
        else
        {
            for (cur = 0; cur < int(scopes.size()); cur++)
            {
                if (scopes[cur].tier > (ex.thorough ? 2 : 1)) continue;
                if (const char* only = std::getenv("MC_ONLY"))
                    if (scopes[cur].name != only) continue;
                if (ex.shard == 0 && samples.size() < 6)
                {
                    // the scope's first execution, written out, as a sample
                    ex.verbose = ex.replaying = true;
                    ex.path.clear();
                    ex.arity.clear();
                    auto tr = ex.transitions;
                    ex.run_once(cur, scopes[cur].body);
                    ex.transitions = tr;
                    samples.push_back(scopes[cur].name + ": " + ex.log.substr(0, 600));
                    ex.verbose = ex.replaying = false;
                }
                ex.run_scope(cur, scopes[cur].name, scopes[cur].body, t0 + budget);
            }
        }
    }
    catch (const Violation& v)
    {
        violation = v.msg;
        vpath     = path_text();
        vlog      = ex.log;
        rc        = 10;
    }
    std::cout.rdbuf(cout_buf);
    if (!out.empty())
    {
        std::ofstream f(out);
        f << "{\"executions\":" << ex.executions << ",\"transitions\":" << ex.transitions
          << ",\"discarded\":" << ex.discarded << ",\"replays\":" << ex.replays
          << ",\"capped\":" << (ex.capped ? "true" : "false") << ",\"scopes\":{";
        bool first = true;
        for (auto& p : ex.per_scope)
        {
            f << (first ? "" : ",") << json_str(p.first) << ":" << p.second;
            first = false;
        }
        f << "},\"samples\":[";
        for (std::size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << json_str(samples[i]);
        f << "],\"violation\":" << (rc ? json_str(violation) : "null") << ",\"path\":" << json_str(vpath)
          << ",\"scope\":" << json_str(cur < int(scopes.size()) ? scopes[cur].name : "") << ",\"log\":" << json_str(ex.log.substr(0, 20000))
          << "}\n";
        std::ofstream b(out + ".states", std::ios::binary);
        for (auto h : ex.states) b.write(reinterpret_cast<const char*>(&h), 8);
        std::ofstream c(out + ".outcomes", std::ios::binary);
        for (auto h : ex.outcomes) c.write(reinterpret_cast<const char*>(&h), 8);
    }
    fflush(stdout);
    _exit(rc);
}
} // namespace mc
