// User-defined steppers that implement the documented stepper concepts, with scripted behaviour.
// The "solution" is exact: state[1] is always the time the state belongs to, state[0] = phase(time).
#ifndef VERIF_MOCK_HPP
#define VERIF_MOCK_HPP
#include "sys.hpp"
#include <array>
#include <boost/numeric/odeint/stepper/stepper_categories.hpp>
#include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/default_operations.hpp>
#include <boost/numeric/odeint/util/resizer.hpp>
namespace M {
namespace ode = boost::numeric::odeint;
typedef std::array<double, 2> st;
inline double phase(double t) { return 3 * t + 1; }
inline st at(double t) { return st{{phase(t), t}}; }
inline double &gscale() { static double s = 0; return s; } // largest time magnitude of the current case
inline double tol(double a, double b = 0) { return 16 * 2.3e-16 * (1 + std::fabs(a) + std::fabs(b) + gscale()); }
inline bool near(double a, double b) { return std::fabs(a - b) <= tol(a, b); }
inline bool isat(const st &x, double t) { return near(x[1], t) && std::fabs(x[0] - phase(t)) <= 4 * tol(t); }

struct Ev { char k; double t, dt, t2, prop; }; // o: observed at t; s: step ok from t by dt to t2; r: rejected try; i: initialize(t,dt); c: calc_state(t); k: checker; z: checker reset
struct Tr {
    std::vector<Ev> ev; long steps = 0, rejects = 0, obs = 0, sysc = 0; long budget = 400000; bool bad = false; std::string why;
    void fail(const std::string &s) { if (!bad) { bad = true; why = s; } }
    void add(char k, double t, double dt = 0, double t2 = 0, double prop = 0) { if (long(ev.size()) > budget) throw H::Budget(); ev.push_back(Ev{k, t, dt, t2, prop}); }
};
struct Common { typedef st state_type; typedef st deriv_type; typedef double value_type; typedef double time_type; typedef ode::range_algebra algebra_type; typedef ode::default_operations operations_type; typedef ode::never_resizer resizer_type; typedef unsigned short order_type; static order_type order() { return 1; } };

template <class Cat> struct Plain : Common {
    typedef Cat stepper_category; Tr *tr; explicit Plain(Tr &t) : tr(&t) {}
    template <class S> void do_step(S s, st &x, double t, double dt) { st o; do_step(s, x, t, o, dt); x = o; }
    template <class S> void do_step(S, const st &x, double t, st &o, double dt) {
        if (!isat(x, t)) tr->fail(H::cat("do_step got a state of time ", x[1], " with t=", t));
        o = at(t + dt); tr->add('s', t, dt, t + dt); tr->steps++;
    }
};
// behaviour script of controlled mocks
struct Script {
    H::Rng r; double preject, grow, shrink, maxdt; int burst; double shrink_hi = 0.95; int minburst = 1; double mindt = 0; /* below mindt: no rejections, growth by 2 */ int left = 0; bool in_burst = false; long done = 0; long max_bursts = 1000000;
    Script(uint64_t seed, double pr = 0.3, double g = 3, double s = 0.3, double md = 1e300, int b = 3) : r(seed), preject(pr), grow(g), shrink(s), maxdt(md), burst(b) {}
    bool reject(double dt) { if (mindt > 0 && std::fabs(dt) < mindt) { left = 0; in_burst = false; return false; } if (left > 0) { --left; return true; } if (in_burst) { in_burst = false; return false; } if (preject > 0 && done < max_bursts && r.coin(preject)) { ++done; left = r.range(minburst, burst) - 1; in_burst = true; return true; } return false; }
    double less(double dt) { return dt * r.uni(shrink, shrink_hi); }
    double more(double dt) { double f = r.coin(0.5) ? r.uni(1, grow) : (r.coin(0.3) ? r.uni(0.5, 1) : 1.0); if (mindt > 0 && std::fabs(dt) < mindt) f = 2; double v = dt * f; return std::fabs(v) > maxdt ? (v > 0 ? maxdt : -maxdt) : v; }
};
template <class Cat> struct Ctrl : Common {
    typedef Cat stepper_category; Tr *tr; std::shared_ptr<Script> sc;
    Ctrl(Tr &t, const Script &s) : tr(&t), sc(new Script(s)) {}
    template <class S> ode::controlled_step_result try_step(S s, st &x, double &t, double &dt) { st o; ode::controlled_step_result r = try_step(s, x, t, o, dt); if (r == ode::success) x = o; return r; }
    template <class S> ode::controlled_step_result try_step(S, const st &x, double &t, st &o, double &dt) {
        if (!isat(x, t)) tr->fail(H::cat("try_step got a state of time ", x[1], " with t=", t));
        if (dt == 0) tr->fail("try_step called with dt=0");
        if (sc->reject(dt)) { tr->rejects++; double d = sc->less(dt); tr->add('r', t, dt, t, d); dt = d; return ode::fail; }
        double t2 = t + dt; o = at(t2); double d = sc->more(dt); tr->add('s', t, dt, t2, d); tr->steps++; t = t2; dt = d; return ode::success;
    }
};
struct Dense : Common {
    typedef ode::dense_output_stepper_tag stepper_category; Tr *tr; std::shared_ptr<Script> sc; st x, xo; double t = 0, to = 0, dt = 0; bool init = false, stepped = false;
    Dense(Tr &q, const Script &s) : tr(&q), sc(new Script(s)) {}
    template <class S> void initialize(const S &x0, double t0, double dt0) { st c = {{x0[0], x0[1]}}; if (!isat(c, t0)) tr->fail(H::cat("initialize got a state of time ", c[1], " with t=", t0)); x = c; t = t0; dt = dt0; init = true; stepped = false; tr->add('i', t0, dt0); }
    template <class S> std::pair<double, double> do_step(S) {
        if (!init) tr->fail("do_step before initialize"); if (dt == 0) tr->fail("dense do_step with dt=0");
        double d = dt; while (sc->reject(d)) { tr->rejects++; d = sc->less(d); }
        xo = x; to = t; t = to + d; x = at(t); dt = sc->more(d); stepped = true; tr->add('s', to, d, t); tr->steps++; return std::make_pair(to, t);
    }
    template <class S> void calc_state(double tq, S &o) const {
        double lo = std::min(to, t), hi = std::max(to, t);
        if (!stepped) { if (!near(tq, t)) tr->fail(H::cat("calc_state at ", tq, " before the first step from ", t)); }
        else if (tq < lo - tol(tq, lo) || tq > hi + tol(tq, hi)) tr->fail(H::cat("calc_state at ", tq, " outside of the last step [", lo, ",", hi, "]"));
        st c = at(tq); o[0] = c[0]; o[1] = c[1]; tr->add('c', tq);
    }
    template <class S> void calc_state(double tq, const S &o) const { calc_state(tq, const_cast<S &>(o)); }
    const st &current_state() const { return x; } double current_time() const { return t; } const st &previous_state() const { return xo; } double previous_time() const { return to; } double current_time_step() const { return dt; }
};
struct Obs { Tr *tr; template <class X> void operator()(const X &x, double t) const { st c = {{x[0], x[1]}}; if (!isat(c, t)) tr->fail(H::cat("observer got a state of time ", c[1], " with t=", t)); tr->add('o', t); tr->obs++; } };
struct CountObs { long n = 0; double last = 0; template <class X> void operator()(const X &, double t) { ++n; last = t; } };
struct Sy { Tr *tr; template <class X, class D> void operator()(const X &, D &, double) const { tr->sysc++; } };
struct Checker { Tr *tr; long calls = 0, resets = 0, since = 0, maxsince = 0; explicit Checker(Tr *t = 0) : tr(t) {} void operator()() { ++calls; ++since; maxsince = std::max(maxsince, since); if (tr) tr->add('k', 0); } void reset() { ++resets; since = 0; if (tr) tr->add('z', 0); } };
} // namespace M
#endif
