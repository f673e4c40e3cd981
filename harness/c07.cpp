// C07: the integration methods themselves.
#include "ref.hpp"
using namespace ref;

using F = std::function<Vec(double, const Vec&)>;
// calls the stepper and the reference on the same problem
struct Caller
{
    std::shared_ptr<pooya::StepperBase> st;
    int kind;
    bool shared_buffer;
    Array buffer;
    std::vector<std::unique_ptr<Array>> kept;
    Caller(int k, bool shared) : st(make_stepper(k)), kind(k), shared_buffer(shared) {}
    RefStep step(const F& f, double t0, const Vec& v0, double h, const std::string& w, double tol = 1e-11)
    {
        const double t1 = t0 + h;
        double scale    = 1;
        std::vector<double> times;
        auto cb = [&](double t, const Array& v) -> const Array&
        {
            times.push_back(t);
            MC_CHECK(std::size_t(v.size()) == v0.size(), w << ": the derivative is asked for a state of length " << v.size());
            Vec x = f(t, Vec(v.data(), v.data() + v.size()));
            Array* r = &buffer;
            if (!shared_buffer)
            {
                kept.push_back(std::make_unique<Array>());
                r = kept.back().get();
            }
            *r = to_array(Val(TA, x));
            return *r;
        };
        auto rf = [&](double t, const Vec& v)
        {
            Vec x = f(t, v);
            for (double e : v) scale = std::max(scale, std::fabs(e));
            for (double e : x) scale = std::max(scale, std::fabs(e) * h);
            return x;
        };
        RefStep r = ref_step(kind, rf, t0, v0, t1);
        // how much the step amplifies rounding
        Vec vp = v0;
        for (auto& x : vp) x += 1e-10 * (1 + std::fabs(x));
        RefStep rp = ref_step(kind, rf, t0, vp, t1);
        for (std::size_t i = 0; i < v0.size(); i++)
            if (!(std::fabs(rp.v1[i] - r.v1[i]) < 1e-7 * scale)) throw mc::Discard{};
        if (rp.new_h != r.new_h) r.tie = true;
        Array a   = to_array(Val(TA, v0));
        Array v1  = Array::Constant(a.size(), std::nan(""));
        double new_h = -12345;
        st->step(cb, t0, a, t1, v1, new_h);
        if (!(scale < 1e12)) throw mc::Discard{};
        MC_CHECK(from_array(a).v == v0, w << ": the step changed its start state");
        MC_CHECK(std::size_t(v1.size()) == v0.size(), w << ": result of length " << v1.size());
        for (std::size_t i = 0; i < v0.size(); i++)
            MC_CHECK(std::fabs(v1[int(i)] - r.v1[i]) <= tol * scale, stepper_name(kind) << ", " << w << ", t0=" << t0 << " h=" << h << ": component " << i << " is " << v1[int(i)] << ", expected " << r.v1[i]);
        bool ok = std::fabs(new_h - r.new_h) <= 1e-12 * (1 + std::fabs(t0));
        if (r.tie) ok = ok || std::fabs(new_h - 2 * h) < 1e-12 || std::fabs(new_h - h) <= 1e-12 * (1 + std::fabs(t0)) || (r.alt_h == 0 && std::fabs(new_h - h / 2) < 1e-12);
        MC_CHECK(ok, stepper_name(kind) << ", " << w << ", t0=" << t0 << " h=" << h << ": recommends " << new_h << ", expected " << r.new_h);
        // the times at which the method asks for the derivative
        static const std::vector<std::vector<double>> c{{0}, {0, 0.5, 1}, {0, 0.25, 0.375, 12. / 13, 1, 0.5}};
        for (double ci : c[kind])
        {
            bool found = false;
            for (double t : times) found = found || std::fabs(t - (t0 + ci * h)) <= 1e-12 * (1 + std::fabs(t0) + h);
            MC_CHECK(found, stepper_name(kind) << ", " << w << ": no evaluation at fraction " << ci << " of the step");
        }
        for (double t : times)
        {
            bool found = false;
            for (double ci : c[kind]) found = found || std::fabs(t - (t0 + ci * h)) <= 1e-12 * (1 + std::fabs(t0) + h);
            MC_CHECK(found, stepper_name(kind) << ", " << w << ": an evaluation at " << t << ", not one of the method's times");
        }
        for (double x : r.v1) mc::ex.observe(x);
        mc::ex.observe(new_h);
        return r;
    }
};
static void linear(int dim)
{
    int k = choose(3);
    Vec a, b, c;
    const std::vector<double> m{0, 1, -2};
    for (int i = 0; i < dim * dim; i++) a.push_back(pick(m));
    if (dim < 3)
    {
        for (int i = 0; i < dim; i++) b.push_back(pick(m));
        c = b;
        std::reverse(c.begin(), c.end());
    }
    else
        b = {1, 0, -0.5}, c = {0, 2, 1};
    double t0 = dim == 1 ? pick({0.0, -3.25, 100.1}) : (a[0] == 1 ? -3.25 : 0.7);
    double h  = dim == 1 ? pick({0.1, 0.5, 1.0, 0.0009765625, 3.0, 20.0}) : pick({0.1, 1.0});
    Vec v0;
    for (int i = 0; i < dim; i++) v0.push_back(1.5 - i);
    F f = [&](double t, const Vec& v)
    {
        Vec r(dim);
        for (int i = 0; i < dim; i++)
        {
            r[i] = b[i] * t + c[i];
            for (int j = 0; j < dim; j++) r[i] += a[i * dim + j] * v[j];
        }
        return r;
    };
    MC_LOG("linear system of dimension " << dim << ", matrix " << mc::str(a) << " b=" << mc::str(b));
    Caller s(k, a[0] != 0);
    s.step(f, t0, v0, h, "linear system");
}
static F family(int id, double s)
{
    return [id, s](double t, const Vec& v)
    {
        Vec r(v.size());
        for (std::size_t i = 0; i < v.size(); i++)
        {
            double x = v[i], y = v[(i + 1) % v.size()];
            switch (id)
            {
            case 0: r[i] = s * x * x; break;
            case 1: r[i] = s * t * y; break;
            case 2: r[i] = s * (y - x * x * x); break;
            case 3: r[i] = s * std::sin(3 * x + t) + i; break;
            case 4: r[i] = s * t; break;
            case 5: r[i] = s * t * t; break;
            case 6: r[i] = s * t * t * t * (1 + i); break;
            case 7: r[i] = s * std::pow(t, 4); break;
            case 8: r[i] = s * std::pow(t, 5) - i * t; break;
            case 9: r[i] = s * (x * y * t + i); break;
            default: r[i] = i % 2 ? 0 : s * std::exp(-t) - 4 * x; break;
            }
        }
        return r;
    };
}
static void nonlinear()
{
    int k     = choose(3);
    int id    = choose(11);
    int dim   = pick({1, 2, 3, 5, 17});
    double t0 = pick({0.0, -1.3, 6.5});
    double h  = pick({0.05, 0.3, 0.9, 2.0});
    double s  = pick({1.0, -0.4, 7.0});
    Vec v0;
    for (int i = 0; i < dim; i++) v0.push_back(0.8 - 0.3 * i);
    MC_LOG("function " << id << " dimension " << dim);
    Caller c(k, choose(2));
    c.step(family(id, s), t0, v0, h, "function " + std::to_string(id), 1e-10);
}
// the error estimate swept across both thresholds; the largest error may be in any component and of any sign
static void thresholds()
{
    int id    = pick({0, 2, 3, 8, 10});
    int n     = mc::ex.thorough ? 400 : 120;
    int k     = choose(n);
    double s  = std::pow(10.0, -3 + 6.0 * k / n);
    double h  = pick({0.125, 1.0});
    int dim   = choose(4) + 1;
    int hot   = choose(dim);
    double sg = choose(2) ? 1 : -1;
    F g       = family(id, 1);
    F f       = [&](double t, const Vec& v)
    {
        Vec r(v.size());
        Vec one{v[hot]};
        for (std::size_t i = 0; i < v.size(); i++) r[i] = -0.01 * v[i];
        r[hot] = sg * s * g(t, one)[0];
        return r;
    };
    Vec v0(dim, 0.7);
    MC_LOG("function " << id << " scaled " << s << " in component " << hot << " of " << dim);
    Caller c(SRkf45, false);
    c.step(f, 0.4, v0, h, "threshold sweep", 1e-10);
}
// many steps with one stepper object: dimensions, functions and steps change; another stepper is used in between
static void sequences()
{
    int k  = choose(3);
    int sh = choose(2);
    Caller a(k, sh), b(k, !sh);
    int n = mc::ex.thorough ? 4 : 3;
    const std::vector<int> dims{1, 3, 2};
    const std::vector<int> ids{2, 8, 3};
    for (int i = 0; i < n; i++)
    {
        int dim = pick(dims), id = pick(ids), who = choose(2);
        double h = i % 2 ? 0.75 : 0.2;
        Vec v0;
        for (int j = 0; j < dim; j++) v0.push_back(0.5 + j - 0.25 * i);
        MC_LOG("step " << i << ": stepper " << who << " function " << id << " dimension " << dim);
        (who ? b : a).step(family(id, 2), 1 - i, v0, h, "step " + std::to_string(i) + " of a sequence", 1e-10);
    }
}
// one stepper object, steps that share some of their arguments: function, start time, state, length
static void shared_arguments()
{
    int k = choose(3);
    Caller c(k, choose(2));
    int n = 3;
    for (int i = 0; i < n; i++)
    {
        int id    = pick({2, 8, 5});
        double t0 = pick({0.0, 0.5}), h = pick({0.5, 0.25});
        Vec v0    = choose(2) ? Vec{1, -2} : Vec{1, 0.5};
        MC_LOG("step " << i << ": function " << id << " t0=" << t0 << " h=" << h << " v0=" << mc::str(v0));
        c.step(family(id, 2), t0, v0, h, "step " + std::to_string(i) + " with shared arguments", 1e-10);
    }
}
// a derivative function that fails leaves the stepper usable
static void failures()
{
    int k  = choose(3);
    int at = choose(7);
    Caller c(k, choose(2));
    Vec v0{1, 2};
    int n = 0;
    F good = family(2, 1);
    auto cb = [&](double t, const Array& v) -> const Array&
    {
        if (n++ == at) throw std::runtime_error("stop");
        c.buffer = to_array(Val(TA, good(t, from_array(v).v)));
        return c.buffer;
    };
    Array a = to_array(Val(TA, v0)), v1 = a;
    double nh = 0;
    bool threw = mc::throws([&] { c.st->step(cb, 0, a, 0.5, v1, nh); });
    MC_CHECK(threw == (at < n), "an exception of the derivative function got lost");
    c.step(good, 0.25, v0, 0.5, "after a failed step");
}
// a whole integration: composing steps, the recommended step followed
static void composed()
{
    int k    = choose(3);
    int id   = pick({0, 2, 3, 5, 10});
    double h = pick({0.1, 0.4});
    int dim  = pick({1, 2});
    Caller c(k, true);
    Vec v(dim, 0.5);
    double t = -0.5;
    for (int i = 0; i < 25; i++)
    {
        RefStep r = c.step(family(id, -1.5), t, v, h, "composed step " + std::to_string(i), 1e-9);
        if (r.tie) throw mc::Discard{};
        t += h;
        v = r.v1;
        h = std::max(0.01, std::min(r.new_h, 1.0));
    }
}
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv,
                        {{"linear systems, 1 state", [] { linear(1); }},
                         {"linear systems, 2 states", [] { linear(2); }},
                         {"nonlinear functions", nonlinear},
                         {"error thresholds", thresholds},
                         {"step sequences", sequences},
                         {"shared arguments", shared_arguments},
                         {"failing derivative functions", failures},
                         {"composed steps", composed},
                         {"linear systems, 3 states", [] { linear(3); }, 2}});
}
