// C06: the integrate functions that are built on top of the iterators (boost/numeric/odeint/iterator/integrate).
#include "mock.hpp"
#include <deque>
#include <functional>
#include <boost/ref.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/iterator/integrate/observer_collection.hpp>
using namespace M; using H::Rng;
namespace ode = boost::numeric::odeint;
enum Kind { PLAIN, CTRL, DENSE }; static const char *kn[] = {"plain", "controlled", "dense"};
enum Fam { CONST, NSTEPS, ADAPTIVE, TIMES }; static const char *fn[] = {"const", "n_steps", "adaptive", "times"};
struct Job { int fam; double t0, t1, dt; long n; bool exact; std::vector<double> ts; int how; };
static Job job(Rng &r, bool ctl) {
    Job j; j.fam = r.range(0, 3); j.how = r.range(0, 2); double dir = r.sign(); long n = r.coin(0.15) ? r.range(0, 2) : r.range(0, r.coin(0.1) ? 300 : 40); j.n = n;
    if (r.coin(0.5)) { int bits = r.range(0, 8); j.t0 = r.coin(0.3) ? 0 : r.dy(-50, 50, 8); j.dt = dir * std::ldexp(double(r.range(1, 15)), -bits); j.exact = true; int w = r.range(0, 2); j.t1 = j.t0 + double(n) * j.dt + (w == 0 ? 0 : w == 1 ? j.dt / 4 : j.dt * 3 / 4); if (w) j.exact = false; }
    else { j.t0 = r.coin(0.3) ? 0 : r.uni(-1, 1) * r.logu(0.01, 1e3); j.dt = dir * r.logu(1e-3, 30.0); j.exact = false; j.t1 = j.t0 + (double(n) + r.uni(0.05, 0.95)) * j.dt; }
    if (j.fam == TIMES) { double t = j.t0; int m = r.coin(0.1) ? 1 : r.range(1, 40); bool dy = r.coin(0.5); for (int i = 0; i < m; ++i) { j.ts.push_back(t); t += dir * (dy ? r.range(1, 64) / 16.0 : std::fabs(j.dt) * r.logu(0.05, 20)); } j.t1 = t; double span = std::fabs(t - j.t0); if (std::fabs(j.dt) < span / 300) j.dt = dir * span / r.uni(20, 300); }
    (void)ctl; gscale() = std::max(std::fabs(j.t0), std::fabs(j.t1)) + std::fabs(j.dt); return j;
}
// calls the function; the result is the value returned
template <class S, class Y, class X, class O> double call(const Job &j, S s, Y y, X &x, O o) {
    switch (j.fam) {
    case CONST: return double(ode::integrate_const(s, y, x, j.t0, j.t1, j.dt, o));
    case NSTEPS: return double(ode::integrate_n_steps(s, y, x, j.t0, j.dt, size_t(j.n), o));
    case ADAPTIVE: return double(ode::integrate_adaptive(s, y, x, j.t0, j.t1, j.dt, o));
    default: if (j.how == 0) return double(ode::integrate_times(s, y, x, j.ts, j.dt, o)); if (j.how == 1) { std::deque<double> d(j.ts.begin(), j.ts.end()); return double(ode::integrate_times(s, y, x, d.begin(), d.end(), j.dt, o)); } return double(ode::integrate_times(s, y, x, j.ts.data(), j.ts.data() + j.ts.size(), j.dt, o));
    }
}
template <class S, class Y, class X> void call_noobs(const Job &j, S s, Y y, X &x) {
    switch (j.fam) { case NSTEPS: ode::integrate_n_steps(s, y, x, j.t0, j.dt, size_t(j.n)); break; default: ode::integrate_adaptive(s, y, x, j.t0, j.t1, j.dt); }
}
static bool le(double dir, double a, double b) { return dir > 0 ? a <= b + tol(a, b) : a >= b - tol(a, b); }
static double lastt(const Job &j) { return j.fam == ADAPTIVE ? j.t1 : j.fam == TIMES ? j.ts.back() : j.t0 + double(j.n) * j.dt; }
// the observed times; for the adaptive family only the properties every sequence must have
static void check_points(const Job &j, const std::vector<double> &o, double ret, long steps, Kind k) {
    HREQUIRE(!o.empty(), "observation-count", "nothing observed"); double t0 = j.fam == TIMES ? j.ts[0] : j.t0;
    HCHECK(o[0] == t0, "first-observation", "first observation at ", o[0]); for (size_t i = 1; i < o.size(); ++i) HCHECK((o[i] - o[i - 1]) * j.dt > 0, "observation-order", o[i], " after ", o[i - 1]);
    if (j.fam == CONST || j.fam == NSTEPS) { HREQUIRE((long)o.size() == j.n + 1, "observation-count", o.size(), " observations for ", j.n, " steps"); for (long i = 0; i <= j.n; ++i) HCHECK(near(o[size_t(i)], j.t0 + double(i) * j.dt), "observation-time", "observed ", o[size_t(i)], " instead of ", j.t0 + double(i) * j.dt); }
    if (j.fam == TIMES) { HREQUIRE(o.size() == j.ts.size(), "observation-count", o.size(), " observations for ", j.ts.size(), " times"); for (size_t i = 0; i < o.size(); ++i) HCHECK(o[i] == j.ts[i], "observation-time", "observed ", o[i], " instead of ", j.ts[i]); }
    if (j.fam == ADAPTIVE) { HCHECK(near(o.back(), j.t1), "last-observation", "last observation at ", o.back(), " instead of ", j.t1); if (steps >= 0) HREQUIRE((long)o.size() == steps + 1, "observation-count", o.size(), " observations for ", steps, " steps"); }
    if (j.fam == NSTEPS) HCHECK(near(ret, lastt(j)), "returned-time", "returned ", ret, " instead of ", lastt(j)); else if (k == PLAIN ? j.fam != TIMES : j.fam == ADAPTIVE) HCHECK(long(ret) == (steps >= 0 ? steps : long(o.size()) - 1), "returned-steps", "returned ", ret, " performed ", steps);
}
static void check_trace(const Job &j, Kind k, const Tr &tr, const st &x, double ret, bool obs) {
    double t0 = j.fam == TIMES ? j.ts[0] : j.t0, pos = t0, tl = lastt(j); std::vector<double> o; size_t i = 0;
    auto grid = [&](size_t q) { return j.fam == ADAPTIVE ? j.t1 : j.fam == TIMES ? (q < j.ts.size() ? j.ts[q] : tl) : j.t0 + double(q) * j.dt; };
    for (auto &e : tr.ev) {
        if (e.k == 's' || e.k == 'r') HCHECK(e.dt * j.dt > 0, "step-direction", "step from ", e.t, " by ", e.dt);
        if (e.k == 's') { HCHECK(near(e.t, pos), "step-continuity", "step starts at ", e.t, " but the solution is at ", pos); pos = e.t2; if (obs && k != DENSE) HCHECK(le(j.dt, pos, grid(i)), "step-over-point", "step to ", pos, " over ", grid(i)); if (j.fam == ADAPTIVE) HCHECK(le(j.dt, pos, j.t1), "beyond-end", "step to ", pos, " beyond ", j.t1); if (k == PLAIN && j.fam != TIMES) HCHECK(le(j.dt, std::fabs(e.dt) * (j.dt > 0 ? 1 : -1), j.dt), "plain-step-size", e.dt, " larger than ", j.dt); }
        if (e.k == 'o') { ++i; o.push_back(e.t); if (k != DENSE) HCHECK(near(e.t, pos), "observation-at-solution", "observed ", e.t, " solution at ", pos); else HCHECK(le(j.dt, e.t, pos), "observation-extrapolates", "observed ", e.t, " solution only at ", pos); }
    }
    HCHECK(!tr.bad, "inconsistent", tr.why); HCHECK(isat(x, tl), "final-state", "state of time ", x[1], " expected ", tl); if (k != DENSE) HCHECK(near(pos, tl), "end-reached", "integration ended at ", pos, " instead of ", tl);
    if (obs) check_points(j, o, ret, tr.steps, k);
    if (k == PLAIN && (j.fam == CONST || j.fam == NSTEPS)) HCHECK(tr.steps == j.n, "plain-step-count", tr.steps, " steps instead of ", j.n);
    if (k == PLAIN && j.fam == ADAPTIVE) HCHECK(tr.steps == j.n + (j.exact ? 0 : 1), "plain-step-count", tr.steps, " steps instead of ", j.n + (j.exact ? 0 : 1));
}
template <class F> void each_kind(int c, F f) {
    switch (c) {
    case 0: f(PLAIN, [](Tr &t, const Script &) { return Plain<ode::stepper_tag>(t); }); break;
    case 1: f(PLAIN, [](Tr &t, const Script &) { return Plain<ode::explicit_error_stepper_fsal_tag>(t); }); break;
    case 2: f(CTRL, [](Tr &t, const Script &s) { return Ctrl<ode::controlled_stepper_tag>(t, s); }); break;
    case 3: f(CTRL, [](Tr &t, const Script &s) { return Ctrl<ode::explicit_controlled_stepper_fsal_tag>(t, s); }); break;
    default: f(DENSE, [](Tr &t, const Script &s) { return Dense(t, s); }); break;
    }
}
static Script script(Rng &r, double dt) { double pr = r.coin(0.3) ? 0 : r.uni(0.05, 0.6), md = r.coin(0.3) ? 1e300 : std::fabs(dt) * r.logu(0.1, 8); Script q(r.u64(), pr, r.uni(1.5, 6), r.uni(0.2, 0.6), md, r.range(1, 4)); q.mindt = std::fabs(dt) / 30; return q; }
static void scripted() {
    H::group("itint-mock", 3000, [](Rng &r) { each_kind(r.range(0, 5), [&](Kind k, auto mk) {
        Job j = job(r, k != PLAIN); Script sc = script(r, j.dt); int form = r.range(0, 4); Tr tr; H::describe(fn[j.fam], " ", kn[k], " form=", form, " t0=", j.t0, " t1=", j.t1, " dt=", j.dt, " n=", j.n, " preject=", sc.preject); H::nontrivial(j.n > 0);
        if (j.fam == ADAPTIVE && j.t1 == j.t0) { j.t1 = j.t0 + j.dt; j.n = 1; }
        st x = at(j.fam == TIMES ? j.ts[0] : j.t0); Obs o{&tr}; Sy sy{&tr}; Tr *pt = &tr; auto s = mk(tr, sc); double ret;
        switch (form) {
        default: ret = call(j, s, sy, x, o); break;
        case 1: ret = call(j, boost::ref(s), boost::ref(sy), x, boost::ref(o)); break;
        case 2: ret = call(j, std::ref(s), std::ref(sy), x, std::ref(o)); break;
        case 3: ret = call(j, s, sy, x, [pt](const st &q, double t) { Obs{pt}(q, t); }); break;
        case 4: if (j.fam == CONST || j.fam == TIMES) { ret = call(j, s, sy, x, std::ref(o)); break; } call_noobs(j, s, sy, x); check_trace(j, k, tr, x, 0, false); H::count("runs-unobserved"); return;
        }
        check_trace(j, k, tr, x, ret, true); H::count("observations", tr.obs); H::count("steps", tr.steps); H::count("rejections", tr.rejects); H::count(H::cat("runs-", fn[j.fam], "-", kn[k])); }); });
    H::group("itint-empty", 100, [](Rng &r) { each_kind(r.range(0, 5), [&](Kind k, auto mk) { // no times: nothing is observed and nothing changes
        if (k == DENSE) return; Tr tr; double t0 = r.uni(-3, 3); Script sc = script(r, 0.1); auto s = mk(tr, sc); Obs o{&tr}; Sy sy{&tr}; st x = at(t0); std::vector<double> ts; H::describe("empty ", kn[k]); H::nontrivial();
        ode::integrate_times(s, sy, x, ts.begin(), ts.end(), 0.1, o); HCHECK(tr.obs == 0 && tr.steps == 0 && isat(x, t0), "empty-sequence", "obs=", tr.obs, " steps=", tr.steps); }); });
    H::group("itint-chain", 200, [](Rng &r) { each_kind(r.range(0, 5), [&](Kind k, auto mk) { // the state handed in is continued by the next call
        double t = r.dy(-5, 5, 4), dt = r.sign() * r.dy(0.125, 1, 4); st x = at(t); gscale() = 60; H::describe("chain ", kn[k], " t=", t, " dt=", dt); H::nontrivial();
        for (int i = 0; i < 6; ++i) { Job j; j.fam = r.range(0, 2); j.how = 0; j.t0 = t; j.dt = dt; j.n = r.range(1, 9); j.exact = true; j.t1 = t + double(j.n) * dt; Tr tr; Script sc = script(r, dt); auto s = mk(tr, sc); Obs o{&tr}; Sy sy{&tr}; double ret = call(j, s, sy, x, o); check_trace(j, k, tr, x, ret, true); t = j.t1; } }); });
}
// real steppers on an oscillator with a drive: x'' = -x, exact solution a cos(t)+b sin(t)
typedef std::array<double, 2> ar;
struct Osc { long *n; template <class X, class D> void operator()(const X &x, D &d, double) const { ++*n; d[0] = x[1]; d[1] = -x[0]; } };
struct Coor { template <class X, class D> void operator()(const X &p, D &d) const { d[0] = p[0]; } }; struct Mom { template <class X, class D> void operator()(const X &q, D &d) const { d[0] = -q[0]; } };
static ar rot(ar a, double t) { return ar{{a[0] * std::cos(t) + a[1] * std::sin(t), -a[0] * std::sin(t) + a[1] * std::cos(t)}}; }
template <class X> void check_real(const Job &j, Kind k, const std::vector<std::pair<ar, double>> &ob, ar x, ar x0, double ret, double tl_) {
    double t0 = j.fam == TIMES ? j.ts[0] : j.t0; std::vector<double> o; double worst = 0; for (auto &q : ob) { o.push_back(q.second); ar e = rot(x0, q.second - t0); for (int i = 0; i < 2; ++i) worst = std::max(worst, std::fabs(e[i] - q.first[i])); }
    HCHECK(worst <= tl_, "observed-state", "an observed state is off by ", worst); check_points(j, o, ret, -1, k); ar e = rot(x0, lastt(j) - t0); double d = std::max(std::fabs(e[0] - x[0]), std::fabs(e[1] - x[1])); HCHECK(d <= tl_, "final-state", "the final state is off by ", d, " from the solution at ", lastt(j)); H::count("real-observations", (long)ob.size());
}
static void real() {
    H::group("itint-real", 600, [](Rng &r) {
        Job j; j.fam = r.range(0, 3); j.how = r.range(0, 2); j.t0 = r.coin(0.3) ? 0 : r.uni(-10, 10); j.dt = r.sign() * r.uni(0.005, 0.05); j.n = r.range(0, 60); j.exact = false; j.t1 = j.t0 + (double(j.n) + r.uni(0.1, 0.9)) * j.dt; if (j.fam == TIMES) { double t = j.t0; int m = r.range(1, 25); for (int i = 0; i < m; ++i) { j.ts.push_back(t); t += j.dt * r.logu(0.1, 10); } j.t1 = t; } gscale() = 20;
        ar x0 = {{r.uni(-1, 1), r.uni(-1, 1)}}, x = x0; long nev = 0; std::vector<std::pair<ar, double>> ob; auto o = [&](const ar &q, double t) { ob.push_back(std::make_pair(q, t)); if (ob.size() > 100000) throw H::Budget(); }; Osc f{&nev}; int c = r.range(0, 6); double ret = 0; bool ref = r.coin();
        H::describe("real ", fn[j.fam], " stepper=", c, " ref=", ref, " t0=", j.t0, " t1=", j.t1, " dt=", j.dt, " n=", j.n); H::nontrivial(j.n > 0);
        auto go = [&](auto s, Kind k, double tl_) { auto f2 = [&](const auto &q, double t) { o(ar{{q[0], q[1]}}, t); }; if (ref) ret = call(j, std::ref(s), f, x, f2); else ret = call(j, s, f, x, f2); check_real<ar>(j, k, ob, x, x0, ret, tl_); HCHECK(nev > 0 || ob.size() <= 1, "no-evaluations", ""); };
        switch (c) {
        case 0: go(ode::runge_kutta4<ar>(), PLAIN, 1e-6); break;
        case 1: go(ode::runge_kutta_dopri5<ar>(), PLAIN, 1e-6); break;
        case 2: go(ode::make_controlled(1e-9, 1e-9, ode::runge_kutta_dopri5<ar>()), CTRL, 1e-5); break;
        case 3: go(ode::make_dense_output(1e-9, 1e-9, ode::runge_kutta_dopri5<ar>()), DENSE, 1e-5); break;
        case 4: go(ode::bulirsch_stoer<ar>(1e-9, 1e-9), CTRL, 1e-4); break;
        case 5: go(ode::bulirsch_stoer_dense_out<ar>(1e-9, 1e-9), DENSE, 1e-4); break;
        default: { typedef std::array<double, 1> a1; ode::symplectic_rkn_sb3a_mclachlan<a1> s; std::pair<a1, a1> q; q.first[0] = x0[0]; q.second[0] = x0[1]; auto sys = std::make_pair(Coor(), Mom()); ret = call(j, s, sys, q, [&](const std::pair<a1, a1> &z, double t) { o(ar{{z.first[0], z.second[0]}}, t); }); check_real<ar>(j, PLAIN, ob, ar{{q.first[0], q.second[0]}}, x0, ret, 1e-5); } } });
    H::group("itint-integrate", 200, [](Rng &r) { // integrate: controlled dopri5 with default tolerances
        double t0 = r.coin(0.3) ? 0 : r.uni(-5, 5), dir = r.sign(), t1 = t0 + dir * r.uni(0.1, 10), dt = dir * r.logu(1e-3, 0.5); std::vector<double> x = {r.uni(-1, 1), r.uni(-1, 1)}; ar x0 = {{x[0], x[1]}}; long nev = 0, n = 0; Osc f{&nev}; double last = 0, worst = 0; bool obs = r.coin(0.7), first = true, ordered = true;
        H::describe("integrate t0=", t0, " t1=", t1, " dt=", dt, " observer=", obs); H::nontrivial(); size_t ret;
        if (obs) ret = ode::integrate(f, x, t0, t1, dt, [&](const std::vector<double> &q, double t) { if (first) ordered = t == t0; else ordered = ordered && (t - last) * dir > 0; first = false; last = t; ++n; ar e = rot(x0, t - t0); worst = std::max(worst, std::max(std::fabs(e[0] - q[0]), std::fabs(e[1] - q[1]))); }); else ret = ode::integrate(f, x, t0, t1, dt);
        ar e = rot(x0, t1 - t0); double d = std::max(std::fabs(e[0] - x[0]), std::fabs(e[1] - x[1])); HCHECK(d <= 1e-3, "final-state", "off by ", d); if (obs) { HCHECK(ordered && std::fabs(last - t1) < 1e-12 * (1 + std::fabs(t1)) , "observation-order", "last observation at ", last); HCHECK(worst <= 1e-3, "observed-state", "off by ", worst); HCHECK(n == long(ret) + 1, "returned-steps", ret, " steps and ", n, " observations"); H::count("real-observations", n); } });
}
int main(int c, char **v) { H::init(c, v, "iter_int"); scripted(); real(); return H::finish(); }
