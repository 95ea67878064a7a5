// C01-C05 (PART=1..5): integrate functions driving scripted user-defined steppers; trace checker.
#include "mock.hpp"
#include <list>
#include <boost/ref.hpp>
#include <functional>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/integrate/max_step_checker.hpp>
#include <boost/numeric/odeint/integrate/observer_collection.hpp>
using namespace M; using H::Rng; using H::cat;
namespace ode = boost::numeric::odeint;

struct Iv { double t0, dt, t1; long n; bool exact; }; // n = number of grid intervals
static Iv interval(Rng &r, long nmax) {
    Iv v; long n = r.coin(0.15) ? r.range(0, 2) : r.range(0, (int)nmax); v.n = n; double dir = r.sign();
    if (r.coin(0.5)) { // dyadic: everything exact
        int bits = r.range(0, 10); v.t0 = r.coin(0.3) ? 0 : r.dy(-50, 50, 8); v.dt = dir * std::ldexp(double(r.range(1, 15)), -bits); 
        v.exact = true; int w = r.range(0, 2); v.t1 = v.t0 + double(n) * v.dt + (w == 0 ? 0 : w == 1 ? v.dt / 4 : v.dt * 3 / 4);
    } else {
        v.t0 = r.coin(0.3) ? 0 : r.uni(-1, 1) * r.logu(0.01, 1e4); double mag = r.logu(1e-4, 30.0); v.dt = dir * mag; v.exact = false; v.t1 = v.t0 + (double(n) + r.uni(0.05, 0.95)) * v.dt;
    }
    M::gscale() = std::max(std::fabs(v.t0), std::fabs(v.t1)); return v;
}
static Script script(Rng &r, double dt) {
    double pr = r.coin(0.3) ? 0 : r.uni(0.05, 0.6); double md = r.coin(0.3) ? 1e300 : std::fabs(dt) * r.logu(0.1, 8);
    Script q = r.coin(0.25) ? Script(r.u64(), pr, 1.0 + 1e-9, 0.5, md, r.range(1, 4)) : Script(r.u64(), pr, r.uni(1.5, 6), r.uni(0.2, 0.6), md, r.range(1, 4));
    q.mindt = std::fabs(dt) / 30; return q;
}
enum Kind { PLAIN, CTRL, DENSE };
static bool ge(double dt, double a, double b) { return dt > 0 ? a >= b - tol(a, b) : a <= b + tol(a, b); }

// the trace of every run: state consistency was checked online; here ordering/continuity of steps
static void check_continuity(const Tr &tr, Kind k, double t0, double dir) {
    double pos = t0; double lastobs = t0; bool first = true;
    for (auto &e : tr.ev) {
        if (e.k == 's' || e.k == 'r') { HCHECK(e.dt * dir > 0, "step-direction", "step from ", e.t, " by ", e.dt); }
        if (e.k == 's') { HCHECK(near(e.t, pos), "step-continuity", "step starts at ", e.t, " but the solution is at ", pos); pos = e.t2; }
        if (e.k == 'o') { if (!first) HCHECK((e.t - lastobs) * dir > 0, "observation-order", "observed ", e.t, " after ", lastobs); lastobs = e.t; first = false; if (k != DENSE) HCHECK(near(e.t, pos), "observation-at-solution", "observed ", e.t, " solution at ", pos); else HCHECK(ge(dir, pos, e.t), "observation-extrapolates", "observed ", e.t, " solution only at ", pos); }
    }
    HCHECK(!tr.bad, "inconsistent", tr.why);
}
static std::vector<double> obst(const Tr &tr) { std::vector<double> v; for (auto &e : tr.ev) if (e.k == 'o') v.push_back(e.t); return v; }

// call forms: 0 by value, 1 boost::ref stepper, 2 std::ref stepper/observer/system, 3 checker by value, 4 checker by ref, 5 lambda observer, 6 const-state overload, 7 no observer, 8 observer collection
struct Res { double ret = 0; st x; bool hasobs = true; long chk_calls = -1, chk_resets = -1; };
template <class X> struct View { X *p; double &operator[](int i) const { return (*p)[i]; } size_t size() const { return 2; } };

template <class Fn> static Res forms(int form, Tr &tr, st x0, Fn fn) { (void)form; (void)tr; Res q; q.x = x0; fn(q); return q; }

template <class Stepper, class F> Res run(int form, Stepper s, Tr &tr, st x0, F f) {
    Res q; q.x = x0; Obs o{&tr}; Sy sy{&tr}; Tr *pt = &tr;
    switch (form) {
    default: q.ret = f(s, sy, q.x, o); break;
    case 1: q.ret = f(boost::ref(s), boost::ref(sy), q.x, boost::ref(o)); break;
    case 2: q.ret = f(std::ref(s), std::ref(sy), q.x, std::ref(o)); break;
    case 3: { Checker c(pt); q.ret = f(s, sy, q.x, o, c); q.chk_calls = c.calls == 0 ? -1 : -2; break; }
    case 4: { Checker c(pt); q.ret = f(s, sy, q.x, o, std::ref(c)); q.chk_calls = c.calls; q.chk_resets = c.resets; break; }
    case 5: { auto l = [pt](const st &x, double t) { Obs{pt}(x, t); }; q.ret = f(s, sy, q.x, l); break; }
    case 6: { Checker c(pt); q.ret = f(boost::ref(s), std::ref(sy), q.x, boost::ref(o), boost::ref(c)); q.chk_calls = c.calls; q.chk_resets = c.resets; break; }
    case 7: { CountObs c1; ode::observer_collection<st, double> oc; std::vector<int> ord; oc.observers().push_back(std::ref(c1)); oc.observers().push_back([pt, &ord](const st &x, double t) { ord.push_back(1); Obs{pt}(x, t); }); oc.observers().push_back([&ord](const st &, double) { ord.push_back(2); });
        q.ret = f(s, sy, q.x, oc); HCHECK(c1.n == tr.obs && (long)ord.size() == 2 * tr.obs, "observer-collection", "members called ", c1.n, " ", ord.size(), " expected ", tr.obs); for (size_t i = 0; i + 1 < ord.size(); i += 2) HCHECK(ord[i] == 1 && ord[i + 1] == 2, "observer-collection-order", ""); break; }
    }
    return q;
}
static void check_checker(const Tr &tr, const Res &q) {
    if (q.chk_calls == -1 && q.chk_resets == -1) return;
    long k = 0, z = 0; for (auto &e : tr.ev) { if (e.k == 'k') ++k; if (e.k == 'z') ++z; }
    HCHECK(k == tr.steps, "checker-per-step", "checker called ", k, " times for ", tr.steps, " successful steps");
    HCHECK(z == tr.obs, "checker-reset-per-observation", "checker reset ", z, " times for ", tr.obs, " observations");
    if (q.chk_calls >= 0) HCHECK(q.chk_calls == k && q.chk_resets == z, "checker-by-reference", "");
    // steps counted since the last observation never include rejected ones; order: reset directly belongs to an observation
}
static void check_grid(const Tr &tr, double t0, double dt, long n, const char *what) {
    auto o = obst(tr); HREQUIRE((long)o.size() == n + 1, "observation-count", what, ": ", o.size(), " observations, expected ", n + 1, " last at ", o.empty() ? 0 : o.back());
    for (long k = 0; k <= n; ++k) { double g = t0 + double(k) * dt; HREQUIRE(std::fabs(o[k] - g) <= 4 * 2.3e-16 * (std::fabs(t0) + std::fabs(double(k) * dt)), "observation-time", "k=", k, " observed ", o[k], " expected ", g); }
}
static void check_plain_steps(const Tr &tr, double t0, double dt, long n) {
    long k = 0; for (auto &e : tr.ev) if (e.k == 's') { HCHECK(std::fabs(e.t - (t0 + k * dt)) <= tol(e.t, t0) && e.dt == dt, "plain-step", "step ", k, " from ", e.t, " by ", e.dt); ++k; }
    HCHECK(k == n, "plain-step-count", k, " steps, expected ", n);
}
// intermixing: for plain and controlled steppers the observation of grid point k comes before any step beyond it
template <class F> void each_kind(int c, F f) {
    // f(kind, maker) with maker creating a stepper for a trace
    switch (c) {
    case 0: f(PLAIN, [](Tr &t, const Script &) { return Plain<ode::stepper_tag>(t); }); break;
    case 1: f(PLAIN, [](Tr &t, const Script &) { return Plain<ode::explicit_error_stepper_tag>(t); }); break;
    case 2: f(PLAIN, [](Tr &t, const Script &) { return Plain<ode::explicit_error_stepper_fsal_tag>(t); }); break;
    case 3: f(CTRL, [](Tr &t, const Script &s) { return Ctrl<ode::controlled_stepper_tag>(t, s); }); break;
    case 4: f(CTRL, [](Tr &t, const Script &s) { return Ctrl<ode::explicit_controlled_stepper_tag>(t, s); }); break;
    case 5: f(CTRL, [](Tr &t, const Script &s) { return Ctrl<ode::explicit_controlled_stepper_fsal_tag>(t, s); }); break;
    default: f(DENSE, [](Tr &t, const Script &s) { return Dense(t, s); }); break;
    }
}
template <class F> void each(Rng &r, F f) { each_kind(r.range(0, 7), f); }
static const char *kn[] = {"plain", "controlled", "dense"};

struct FConst { double t0, t1, dt; template <class S, class Y, class X, class O> double operator()(S s, Y y, X &x, O o) const { return double(ode::integrate_const(s, y, x, t0, t1, dt, o)); } template <class S, class Y, class X, class O, class C> double operator()(S s, Y y, X &x, O o, C c) const { return double(ode::integrate_const(s, y, x, t0, t1, dt, o, c)); } };
struct FN { double t0, dt; size_t n; template <class S, class Y, class X, class O> double operator()(S s, Y y, X &x, O o) const { return ode::integrate_n_steps(s, y, x, t0, dt, n, o); } template <class S, class Y, class X, class O, class C> double operator()(S s, Y y, X &x, O o, C c) const { return ode::integrate_n_steps(s, y, x, t0, dt, n, o, c); } };
struct FAd { double t0, t1, dt; template <class S, class Y, class X, class O> double operator()(S s, Y y, X &x, O o) const { return double(ode::integrate_adaptive(s, y, x, t0, t1, dt, o)); } template <class S, class Y, class X, class O, class C> double operator()(S s, Y y, X &x, O o, C) const { return (*this)(s, y, x, o); } };
struct FTm { std::vector<double> ts; double dt; int how; 
    template <class S, class Y, class X, class O> double operator()(S s, Y y, X &x, O o) const { if (how == 1) return double(ode::integrate_times(s, y, x, ts, dt, o)); if (how == 2) { std::list<double> l(ts.begin(), ts.end()); return double(ode::integrate_times(s, y, x, l.begin(), l.end(), dt, o)); } if (how == 3) return double(ode::integrate_times(s, y, x, ts.data(), ts.data() + ts.size(), dt, o)); return double(ode::integrate_times(s, y, x, ts.begin(), ts.end(), dt, o)); }
    template <class S, class Y, class X, class O, class C> double operator()(S s, Y y, X &x, O o, C c) const { if (how == 1) return double(ode::integrate_times(s, y, x, ts, dt, o, c)); return double(ode::integrate_times(s, y, x, ts.begin(), ts.end(), dt, o, c)); } };

static int pickform(Rng &r) { return r.range(0, 7); }

static void part_const() {
    H::group("mock-grid", 1500, [](Rng &r) { each(r, [&](Kind k, auto mk) {
        Iv v = interval(r, r.coin(0.1) ? 400 : 40); Script sc = script(r, v.dt); int form = pickform(r); Tr tr; 
        H::describe("const ", kn[k], " form=", form, " t0=", v.t0, " t1=", v.t1, " dt=", v.dt, " n=", v.n, " preject=", sc.preject); H::nontrivial(v.n > 0);
        Res q = run(form, mk(tr, sc), tr, at(v.t0), FConst{v.t0, v.t1, v.dt});
        check_continuity(tr, k, v.t0, v.dt); check_grid(tr, v.t0, v.dt, v.n, "integrate_const"); if (k == PLAIN) check_plain_steps(tr, v.t0, v.dt, v.n);
        double tl = v.t0 + double(v.n) * v.dt; HCHECK(isat(q.x, tl), "final-state", "state of time ", q.x[1], " expected ", tl);
        HCHECK(long(q.ret) == tr.steps, "returned-steps", "returned ", q.ret, " performed ", tr.steps);
        if (k == CTRL) { long i = 0; for (auto &e : tr.ev) { if (e.k == 'o') ++i; if (e.k == 's') HCHECK(ge(-v.dt, e.t2, v.t0 + double(i) * v.dt), "step-over-grid", "step to ", e.t2, " over grid point ", i); } }
        check_checker(tr, q); H::count("observations", tr.obs); H::count("steps", tr.steps); H::count("rejections", tr.rejects); }); });
    H::group("mock-long", 3, [](Rng &r) { for (int c : {0, 3, 6}) each_kind(c, [&](Kind k, auto mk) {
        long n = r.coin(0.3) ? r.range(66000, 140000) : H::g().index == 0 ? r.range(66000, 70000) : r.range(20000, 40000); double dt = r.sign() * r.uni(0.01, 0.2), t0 = r.uni(-5, 5); Script sc(r.u64(), 0.05, 2, 0.5, std::fabs(dt) * r.uni(0.7, 3)); sc.mindt = std::fabs(dt) / 10; Tr tr; tr.budget = 4000000; M::gscale() = std::fabs(t0) + n * std::fabs(dt); tr.budget = 10000000;
        H::describe("const-long ", kn[k], " n=", n, " dt=", dt, " t0=", t0); H::nontrivial(); double t1 = t0 + (n + 0.5) * dt;
        Res q = run(0, mk(tr, sc), tr, at(t0), FConst{t0, t1, dt}); check_continuity(tr, k, t0, dt); check_grid(tr, t0, dt, n, "integrate_const"); HCHECK(long(q.ret) == tr.steps, "returned-steps", ""); H::count("observations", tr.obs); }); });
    H::group("mock-noobs", 300, [](Rng &r) { each(r, [&](Kind k, auto mk) { // unobserved call of the plain overload: ends at the last grid time
        Iv v = interval(r, 30); Script sc = script(r, v.dt); Tr tr; H::describe("const-noobs ", kn[k], " t0=", v.t0, " t1=", v.t1, " dt=", v.dt, " n=", v.n); H::nontrivial(v.n > 0);
        st x = at(v.t0); auto s = mk(tr, sc); Sy sy{&tr}; size_t ret = ode::integrate_const(s, sy, x, v.t0, v.t1, v.dt); check_continuity(tr, k, v.t0, v.dt);
        double tl = v.t0 + double(v.n) * v.dt; HCHECK(isat(x, tl), "final-state", "state of time ", x[1], " expected ", tl); HCHECK(long(ret) == tr.steps, "returned-steps", ""); if (k == PLAIN) check_plain_steps(tr, v.t0, v.dt, v.n); }); });
}
static void part_n() {
    H::group("mock-nsteps", 1500, [](Rng &r) { each(r, [&](Kind k, auto mk) {
        Iv v = interval(r, r.coin(0.1) ? 400 : 40); Script sc = script(r, v.dt); int form = pickform(r); Tr tr;
        H::describe("nsteps ", kn[k], " form=", form, " t0=", v.t0, " dt=", v.dt, " n=", v.n, " preject=", sc.preject); H::nontrivial(v.n > 0);
        Res q = run(form, mk(tr, sc), tr, at(v.t0), FN{v.t0, v.dt, size_t(v.n)});
        double tl = v.t0 + double(v.n) * v.dt; check_continuity(tr, k, v.t0, v.dt); check_grid(tr, v.t0, v.dt, v.n, "integrate_n_steps"); if (k == PLAIN) check_plain_steps(tr, v.t0, v.dt, v.n);
        HCHECK(isat(q.x, tl), "final-state", "state of time ", q.x[1], " expected ", tl); HCHECK(near(q.ret, tl), "returned-time", "returned ", q.ret, " expected ", tl);
        for (auto &e : tr.ev) if (e.k == 's') HCHECK(ge(-v.dt, e.t2, tl), "beyond-end", "step to ", e.t2, " beyond ", tl);
        if (k == CTRL) { long i = 0; for (auto &e : tr.ev) { if (e.k == 'o') ++i; if (e.k == 's') HCHECK(ge(-v.dt, e.t2, v.t0 + double(i) * v.dt), "step-over-grid", "step to ", e.t2, " over grid point ", i); } }
        check_checker(tr, q); H::count("observations", tr.obs); H::count("steps", tr.steps); H::count("rejections", tr.rejects); }); });
    H::group("mock-long", 3, [](Rng &r) { for (int c : {0, 3, 6}) each_kind(c, [&](Kind k, auto mk) {
        long n = r.coin(0.3) ? r.range(66000, 140000) : H::g().index == 0 ? r.range(66000, 70000) : r.range(20000, 40000); double dt = r.sign() * r.uni(0.01, 0.2), t0 = r.uni(-5, 5); Script sc(r.u64(), 0.05, 2, 0.5, std::fabs(dt) * r.uni(0.7, 3)); sc.mindt = std::fabs(dt) / 10; Tr tr; tr.budget = 4000000; M::gscale() = std::fabs(t0) + n * std::fabs(dt); tr.budget = 10000000;
        H::describe("nsteps-long ", kn[k], " n=", n, " dt=", dt, " t0=", t0); H::nontrivial();
        run(0, mk(tr, sc), tr, at(t0), FN{t0, dt, size_t(n)}); check_continuity(tr, k, t0, dt); check_grid(tr, t0, dt, n, "integrate_n_steps"); H::count("observations", tr.obs); }); });
    H::group("mock-noobs", 300, [](Rng &r) { each(r, [&](Kind k, auto mk) {
        Iv v = interval(r, 30); Script sc = script(r, v.dt); Tr tr; H::describe("nsteps-noobs ", kn[k], " t0=", v.t0, " dt=", v.dt, " n=", v.n); H::nontrivial(v.n > 0);
        st x = at(v.t0); auto s = mk(tr, sc); Sy sy{&tr}; double ret = ode::integrate_n_steps(s, sy, x, v.t0, v.dt, size_t(v.n)); check_continuity(tr, k, v.t0, v.dt);
        double tl = v.t0 + double(v.n) * v.dt; HCHECK(isat(x, tl), "final-state", "state of time ", x[1], " expected ", tl); HCHECK(near(ret, tl), "returned-time", ""); if (k == PLAIN) check_plain_steps(tr, v.t0, v.dt, v.n); }); });
}
static void check_adaptive(const Tr &tr, Kind k, const Iv &v, const Res &q, bool obs) {
    check_continuity(tr, k, v.t0, v.dt); double pos = v.t0; long nobs = 0, steps = 0, rej_now = 0; (void)rej_now;
    for (auto &e : tr.ev) if (e.k == 's') { ++steps; pos = e.t2; HCHECK(ge(-v.dt, e.t2, v.t1), "beyond-end", "step to ", e.t2, " beyond ", v.t1); }
    HCHECK(near(pos, v.t1), "end-reached", "integration ended at ", pos, " instead of ", v.t1);
    HCHECK(isat(q.x, v.t1), "final-state", "state of time ", q.x[1], " expected ", v.t1);
    HCHECK(long(q.ret) == steps, "returned-steps", "returned ", q.ret, " performed ", steps);
    if (obs) { auto o = obst(tr); HREQUIRE((long)o.size() == steps + 1, "observation-count", o.size(), " observations for ", steps, " steps"); HCHECK(o[0] == v.t0, "first-observation", o[0]); HCHECK(near(o.back(), v.t1), "last-observation", o.back(), " instead of ", v.t1);
        // exactly one observation between two accepted steps
        long since = 0; for (auto &e : tr.ev) { if (e.k == 'o') { since = 0; ++nobs; } if (e.k == 's') { HCHECK(since == 0, "unobserved-step", "two steps without observation near ", e.t); ++since; } } }
    if (k == PLAIN) { long i = 0; for (auto &e : tr.ev) if (e.k == 's') { ++i; if (i < steps) HCHECK(e.dt == v.dt, "plain-step-size", e.dt); else HCHECK(std::fabs(e.dt) <= std::fabs(v.dt) * (1 + 1e-9) + tol(e.t, v.t0), "plain-last-step", e.dt); } long want = v.n + ((v.exact && near(v.t0 + double(v.n) * v.dt, v.t1)) ? 0 : 1); HCHECK(steps == want, "plain-step-count", steps, " expected ", want); }
}
static void part_adaptive() {
    H::group("mock-adaptive", 2000, [](Rng &r) { each(r, [&](Kind k, auto mk) {
        Iv v = interval(r, r.coin(0.1) ? 300 : 30); Script sc = script(r, v.dt); int form = pickform(r); Tr tr; if (r.coin(0.02)) { v.t1 = v.t0; v.n = 0; v.exact = true; }
        H::describe("adaptive ", kn[k], " form=", form, " t0=", v.t0, " t1=", v.t1, " dt=", v.dt, " preject=", sc.preject, " maxdt=", sc.maxdt); H::nontrivial(v.t1 != v.t0);
        Res q = run(form, mk(tr, sc), tr, at(v.t0), FAd{v.t0, v.t1, v.dt}); check_adaptive(tr, k, v, q, true); H::count("observations", tr.obs); H::count("steps", tr.steps); H::count("rejections", tr.rejects); }); });
    H::group("mock-noobs", 400, [](Rng &r) { each(r, [&](Kind k, auto mk) {
        Iv v = interval(r, 30); Script sc = script(r, v.dt); Tr tr; H::describe("adaptive-noobs ", kn[k], " t0=", v.t0, " t1=", v.t1, " dt=", v.dt); H::nontrivial();
        Res q; q.x = at(v.t0); auto s = mk(tr, sc); Sy sy{&tr}; q.ret = double(ode::integrate_adaptive(s, sy, q.x, v.t0, v.t1, v.dt)); check_adaptive(tr, k, v, q, false); }); });
    H::group("mock-long", 2, [](Rng &r) { for (int c : {0, 3, 6}) each_kind(c, [&](Kind k, auto mk) {
        Iv v; v.n = r.range(66000, 90000); v.dt = r.sign() * r.uni(0.01, 0.2); v.t0 = r.uni(-5, 5); v.exact = false; v.t1 = v.t0 + (v.n + 0.4) * v.dt; Script sc(r.u64(), 0.05, 2, 0.5, std::fabs(v.dt) * r.uni(0.7, 1.2)); sc.mindt = std::fabs(v.dt) / 10; Tr tr; tr.budget = 4000000; M::gscale() = std::fabs(v.t0) + std::fabs(v.t1);
        H::describe("adaptive-long ", kn[k], " n=", v.n, " dt=", v.dt, " t0=", v.t0); H::nontrivial(); M::gscale() *= k == PLAIN ? 1 : 1e3; Res q = run(0, mk(tr, sc), tr, at(v.t0), FAd{v.t0, v.t1, v.dt}); check_adaptive(tr, k, v, q, true); H::count("observations", tr.obs); }); });
    H::group("mock-bigdt", 400, [](Rng &r) { each(r, [&](Kind k, auto mk) { // first step larger than the interval
        Iv v; v.t0 = r.uni(-10, 10); v.dt = r.sign() * r.logu(1, 1000); v.n = 0; v.exact = false; v.t1 = v.t0 + v.dt * r.logu(1e-3, 0.99); M::gscale() = std::fabs(v.t0) + std::fabs(v.t1); Script sc = script(r, v.dt); Tr tr;
        H::describe("adaptive-bigdt ", kn[k], " t0=", v.t0, " t1=", v.t1, " dt=", v.dt); H::nontrivial(); Res q = run(pickform(r), mk(tr, sc), tr, at(v.t0), FAd{v.t0, v.t1, v.dt}); check_adaptive(tr, k, v, q, true); }); });
    H::group("mock-straddle", 3000, [](Rng &r) { each(r, [&](Kind k, auto mk) { // around zero with an end that is not representable as sum of the start and the step
        Iv v; double d = r.sign(); v.t0 = -d * r.logu(1e-3, r.coin(0.5) ? 1.0 : 30.0); v.t1 = d * r.logu(2, r.coin(0.5) ? 8.0 : 2000.0); v.n = 0; v.exact = false; double len = v.t1 - v.t0; v.dt = len * (r.coin(0.4) ? r.logu(1, 50) : r.logu(0.03, 1)); v.n = long(std::floor(std::fabs(len / v.dt))); M::gscale() = std::fabs(v.t0) + std::fabs(v.t1);
        Script sc = script(r, v.dt); if (r.coin(0.6)) sc.preject = 0; if (r.coin(0.3)) sc.maxdt = 1e300; Tr tr; tr.budget = 20000;
        H::describe("adaptive-straddle ", kn[k], " t0=", v.t0, " t1=", v.t1, " dt=", v.dt); H::nontrivial(); Res q = run(pickform(r), mk(tr, sc), tr, at(v.t0), FAd{v.t0, v.t1, v.dt}); check_adaptive(tr, k, v, q, true); }); });
    // many separate calls continuing where the previous ended
    H::group("mock-chained", 200, [](Rng &r) { each(r, [&](Kind k, auto mk) {
        double t = r.dy(-4, 4, 6), dt = r.sign() * r.dy(0.1, 1, 6); M::gscale() = 80; Tr all; st x = at(t); H::describe("adaptive-chained ", kn[k], " t0=", t, " dt=", dt); H::nontrivial();
        for (int i = 0; i < 8; ++i) { Tr tr; Script sc = script(r, dt); double t1 = t + dt * r.dy(0.25, 9, 4); Res q; q.x = x; auto s = mk(tr, sc); Sy sy{&tr}; Obs o{&tr}; q.ret = double(ode::integrate_adaptive(s, sy, q.x, t, t1, dt, o)); HCHECK(isat(q.x, t1) && !tr.bad, "final-state", q.x[1], " expected ", t1, " ", tr.why); HCHECK(long(q.ret) == tr.steps, "returned-steps", ""); x = q.x; t = t1; } }); });
}
static std::vector<double> times(Rng &r, double &dt) {
    std::vector<double> v; double dir = r.sign(); int n = r.coin(0.1) ? r.range(0, 2) : r.range(2, 40); bool dy = r.coin(0.5); double t = r.coin(0.3) ? 0 : dy ? r.dy(-20, 20, 6) : r.uni(-100, 100); double sc = r.logu(0.01, 10); bool close = !dy && r.coin(0.3); // some times lie very close together
    for (int i = 0; i < n; ++i) { v.push_back(t); double step = dy ? r.range(1, 64) / 16.0 : sc * r.logu(0.01, 10); if (close && r.coin(0.4)) step = 1e-9 * (1 + std::fabs(t)) * r.logu(1, 1e4); t += dir * step; }
    dt = dir * (dy ? r.range(1, 40) / 16.0 : sc * r.logu(0.03, 30)); M::gscale() = std::fabs(t) + (v.empty() ? 0 : std::fabs(v[0])); return v;
}
static void check_times(const Tr &tr, Kind k, const std::vector<double> &ts, double dt, const Res &q, double tstart) {
    double dir = dt; if (ts.empty()) { HCHECK(tr.obs == 0 && tr.steps == 0 && q.ret == 0, "empty-sequence", "obs=", tr.obs, " steps=", tr.steps, " returned ", q.ret); HCHECK(isat(q.x, tstart), "final-state", "state changed for empty times"); return; }
    check_continuity(tr, k, ts[0], dir); auto o = obst(tr); HREQUIRE(o.size() == ts.size(), "observation-count", o.size(), " observations for ", ts.size(), " times");
    for (size_t i = 0; i < ts.size(); ++i) HCHECK(o[i] == ts[i], "observation-time", "observed ", o[i], " expected ", ts[i]);
    HCHECK(isat(q.x, ts.back()), "final-state", "state of time ", q.x[1], " expected ", ts.back()); HCHECK(long(q.ret) == tr.steps, "returned-steps", "returned ", q.ret, " performed ", tr.steps);
    size_t i = 0; for (auto &e : tr.ev) { if (e.k == 'o') ++i; if (e.k == 's') { HCHECK(ge(-dir, e.t2, k == DENSE ? ts.back() : (i < ts.size() ? ts[i] : ts.back())), "step-over-time", "step to ", e.t2, " over requested time"); HCHECK(i < ts.size(), "step-after-end", "step at ", e.t, " after the last observation"); } }
    if (k == PLAIN) { i = 0; for (auto &e : tr.ev) { if (e.k == 'o') ++i; if (e.k == 's' && i < ts.size()) { double rem = ts[i] - e.t; double want = std::fabs(rem) < std::fabs(dt) ? rem : dt; HCHECK(std::fabs(e.dt - want) <= tol(e.t, dt), "plain-step-size", "step ", e.dt, " at ", e.t, " expected ", want); } } }
    if (k == CTRL) { // the step tried is the remembered step size, cut at the next requested time only
        double mem = dt; i = 0; for (size_t j = 0; j < tr.ev.size(); ++j) { auto &e = tr.ev[j]; if (e.k == 'o') ++i; if ((e.k == 's' || e.k == 'r') && i < ts.size()) { double rem = ts[i] - e.t; double want = std::fabs(rem) < std::fabs(mem) ? rem : mem; HREQUIRE(std::fabs(e.dt - want) <= tol(e.t, mem) + 1e-12 * std::fabs(mem), "remembered-step", "tried ", e.dt, " at ", e.t, " expected ", want, " (remembered ", mem, ")"); bool cut = std::fabs(rem) < std::fabs(mem); double big = std::fabs(e.prop) > std::fabs(mem) ? e.prop : mem;
            if (e.k == 'r') mem = e.prop; else if (cut) mem = big; else { // an uncut step: the proposal (or the larger old step) is used next; learn it from the next try
                double nrem = 0; size_t ii = i; for (size_t jj = j + 1; jj < tr.ev.size(); ++jj) { if (tr.ev[jj].k == 'o') ++ii; if (tr.ev[jj].k == 's' || tr.ev[jj].k == 'r') { nrem = ii < ts.size() ? ts[ii] - tr.ev[jj].t : 0; mem = std::fabs(std::fabs(tr.ev[jj].dt) - std::min(std::fabs(e.prop), std::fabs(nrem))) < 1e-12 * std::fabs(e.prop) && std::fabs(e.prop) < std::fabs(big) && std::fabs(e.prop) < std::fabs(nrem) ? e.prop : big; break; } } } } }
    }
}
static void part_times() {
    H::group("mock-long", 1, [](Rng &r) { for (int c : {0, 3, 6}) each_kind(c, [&](Kind k, auto mk) {
        long n = r.range(66000, 90000); double dt = r.sign() * r.uni(0.01, 0.2), t0 = r.uni(-5, 5); std::vector<double> ts; for (long i = 0; i <= n; ++i) ts.push_back(t0 + i * dt * 0.9); Script sc(r.u64(), 0.05, 2, 0.5, std::fabs(dt) * r.uni(0.7, 3)); sc.mindt = std::fabs(dt) / 10; Tr tr; tr.budget = 4000000; M::gscale() = (std::fabs(t0) + n * std::fabs(dt)) * 1e3;
        H::describe("times-long ", kn[k], " n=", n, " dt=", dt, " t0=", t0); H::nontrivial(); Res q = run(0, mk(tr, sc), tr, at(t0), FTm{ts, dt, 0}); auto o = obst(tr); HREQUIRE(o == ts, "observation-time", "observed times differ from the given ones"); HCHECK(!tr.bad, "inconsistent", tr.why); HCHECK(long(q.ret) == tr.steps, "returned-steps", "returned ", q.ret, " performed ", tr.steps); H::count("observations", tr.obs); }); });
    H::group("mock-times", 2000, [](Rng &r) { each(r, [&](Kind k, auto mk) {
        double dt; auto ts = times(r, dt); Script sc = script(r, dt); int form = pickform(r), how = r.range(0, 3); Tr tr; double t0 = ts.empty() ? 1.5 : ts[0];
        H::describe("times ", kn[k], " form=", form, " how=", how, " n=", ts.size(), " first=", t0, " last=", ts.empty() ? 0 : ts.back(), " dt=", dt, " preject=", sc.preject); H::nontrivial(ts.size() > 1);
        Res q = run(form, mk(tr, sc), tr, at(t0), FTm{ts, dt, how}); 
        check_times(tr, k, ts, dt, q, t0); check_checker(tr, q); H::count("observations", tr.obs); H::count("steps", tr.steps); H::count("rejections", tr.rejects); }); });
}
#include "int_mock_guard.hpp"
int main(int c, char **v) {
    H::init(c, v, "int_mock");
#if PART == 1
    part_const();
#elif PART == 2
    part_n();
#elif PART == 3
    part_adaptive();
#elif PART == 4
    part_times();
#elif PART == 5
    part_guard();
#endif
    return H::finish();
}
