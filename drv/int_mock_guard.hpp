// C05: guards.  Offline oracle over the recorded trace: steps since the last observation vs. the limit.
#if PART == 5
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
template <class F> static char guarded(F f) { // n: no throw, p: no_progress_error, a: step_adjustment_error
    try { f(); } catch (const ode::no_progress_error &) { return 'p'; } catch (const ode::step_adjustment_error &) { return 'a'; } return 'n';
}
static void check_limit(const Tr &tr, Kind k, char out, int N) {
    long c = 0, m = 0; for (auto &e : tr.ev) { if (e.k == 'o') c = 0; if (e.k == 's') { ++c; m = std::max(m, c); } }
    HCHECK(out != 'a', "wrong-exception", "step_adjustment_error instead of no_progress_error");
    // steps performed when the limit is hit: N+1 if the check follows the step, N if it precedes it (dense output)
    long allowed = k == DENSE ? N : N + 1;
    if (out == 'n') { HCHECK(m <= N, "limit-missed", "no exception although ", m, " steps were made between observations, limit ", N); }
    else { HCHECK(m >= N && m <= N + 1, "limit-exact", "exception after ", m, " steps, limit ", N); HCHECK(c >= N, "limit-current-interval", "exception after ", c, " steps since the last observation, limit ", N); HCHECK(m <= allowed, "limit-overrun", "exception after ", m, " steps, limit ", N); }
}
// custom error checker deciding acceptance by script
struct ErrScript { std::shared_ptr<std::vector<int>> bursts; std::shared_ptr<long> tries; std::shared_ptr<int> left; };
template <class Alg, class Ops> struct ScriptChecker { typedef double value_type; typedef Alg algebra_type; typedef Ops operations_type; ErrScript s;
    template <class S, class D, class E, class Tm> double error(const S &x, const D &d, E &e, Tm dt) const { Alg a; return error(a, x, d, e, dt); }
    template <class A, class S, class D, class E, class Tm> double error(A &, const S &, const D &, E &, Tm) const { if (++*s.tries > 1000000) throw H::Budget(); if (*s.left > 0) { --*s.left; return 1.05; } if (!s.bursts->empty()) { *s.left = s.bursts->back(); s.bursts->pop_back(); } return 1e-4; } };
// an algebra with a scripted norm, i.e. a scripted error estimate of the extrapolation steppers
struct ScriptNorm : ode::range_algebra { static double &value() { static double v = 1e-3; return v; } static long &calls() { static long n = 0; return n; } template <class S> static double norm_inf(const S &) { if (value() > 1) ++calls(); return value(); } };
static void part_guard() {
    static const int limits[] = {1, 2, 3, 5, 10, 50, 100, 499, 500, 501};
    H::group("limit-times", 1200, [](Rng &r) { each(r, [&](Kind k, auto mk) {
        int N = r.coin(0.6) ? r.range(1, 12) : limits[r.range(0, 9)]; double dir = r.sign(), t = r.dy(-5, 5, 4), dt = dir * 0.125; std::vector<double> ts(1, t); int n = r.range(1, 12);
        for (int i = 0; i < n; ++i) { int steps = r.coin(0.25) ? N : r.coin(0.15) ? N + 1 : r.range(1, N); if (k == DENSE) steps = std::max(1, steps); t += dt * steps; ts.push_back(t); }
        Script sc(r.u64(), r.coin() ? 0 : 0.3, r.coin() ? 1.0 : 4.0, 0.9, 0.125); sc.mindt = 0.05; Tr tr; int cf = r.range(0, 1); bool how = r.coin();
        H::describe("limit-times ", kn[k], " N=", N, " n=", n, " dir=", dir, " last=", t, " cf=", cf, how, " preject=", sc.preject); H::nontrivial(); st x = at(ts[0]); auto s = mk(tr, sc); Sy sy{&tr}; Obs o{&tr};
        char out = guarded([&] { ode::max_step_checker c(N); if (how) { if (cf) ode::integrate_times(s, sy, x, ts, dt, o, std::ref(c)); else ode::integrate_times(s, sy, x, ts, dt, o, c); } else { if (cf) ode::integrate_times(boost::ref(s), sy, x, ts.begin(), ts.end(), dt, boost::ref(o), boost::ref(c)); else ode::integrate_times(s, sy, x, ts.begin(), ts.end(), dt, o, c); } });
        check_limit(tr, k, out, N); check_continuity(tr, k, ts[0], dt); auto ob = obst(tr); for (size_t i = 0; i < ob.size(); ++i) HCHECK(ob[i] == ts[i], "prefix", "observed ", ob[i]); if (out == 'n') HCHECK(ob.size() == ts.size(), "prefix", "incomplete without exception");
        H::count(std::string("outcome-") + kn[k] + "-" + out); }); });
    H::group("limit-const-nsteps", 1200, [](Rng &r) { each(r, [&](Kind k, auto mk) {
        int N = r.coin(0.6) ? r.range(1, 12) : limits[r.range(0, 9)]; double dir = r.sign(), t0 = r.dy(-5, 5, 4); int sub = r.coin(0.4) ? N : r.coin(0.3) ? N + 1 : r.range(1, N); double dt = dir * 0.125 * sub; long n = r.range(1, 12);
        Script sc(r.u64(), r.coin() ? 0 : 0.3, r.coin() ? 1.0 : 4.0, 0.9, 0.125); sc.mindt = 0.05; Tr tr; int cf = r.range(0, 1); bool cst = r.coin(); double t1 = t0 + n * dt;
        H::describe("limit-", cst ? "const " : "nsteps ", kn[k], " N=", N, " sub=", sub, " n=", n, " dir=", dir, " cf=", cf, " preject=", sc.preject); H::nontrivial(); st x = at(t0); auto s = mk(tr, sc); Sy sy{&tr}; Obs o{&tr};
        char out = guarded([&] { ode::max_step_checker c(N); if (cst) { if (cf) ode::integrate_const(s, sy, x, t0, t1, dt, o, std::ref(c)); else ode::integrate_const(s, sy, x, t0, t1, dt, o, c); } else { if (cf) ode::integrate_n_steps(boost::ref(s), sy, x, t0, dt, size_t(n), boost::ref(o), boost::ref(c)); else ode::integrate_n_steps(s, sy, x, t0, dt, size_t(n), o, c); } });
        check_limit(tr, k, out, N); check_continuity(tr, k, t0, dt); auto ob = obst(tr); for (size_t i = 0; i < ob.size(); ++i) HCHECK(near(ob[i], t0 + double(i) * dt), "prefix", "observed ", ob[i]); if (out == 'n') HCHECK((long)ob.size() == n + 1, "prefix", "incomplete without exception");
        H::count(std::string("outcome-") + kn[k] + "-" + out); }); });
    H::group("default-limit", 60, [](Rng &r) { each(r, [&](Kind k, auto mk) { // default checker: 500
        int sub = r.coin() ? r.range(480, 500) : r.range(501, 520); double dir = r.sign(), t0 = r.dy(-5, 5, 4), dt = dir * 0.125; std::vector<double> ts{t0, t0 + dt, t0 + dt * (1 + sub), t0 + dt * (3 + sub)}; Script sc(r.u64(), 0, 1, 0.9, 0.125); Tr tr; H::describe("default-limit ", kn[k], " steps=", sub, " dir=", dir); H::nontrivial();
        st x = at(t0); auto s = mk(tr, sc); Sy sy{&tr}; Obs o{&tr}; char out = guarded([&] { ode::integrate_times(s, sy, x, ts, dt, o, ode::max_step_checker()); }); check_limit(tr, k, out, 500); }); });
    H::group("unchecked-never-throws", 60, [](Rng &r) { each(r, [&](Kind k, auto mk) {
        int sub = r.range(1200, 5000); double dir = r.sign(), t0 = r.dy(-5, 5, 4), dt = dir * 0.125; double D = dt * sub; Script sc(r.u64(), r.coin() ? 0 : 0.2, 3, 0.9, 0.125); sc.mindt = 0.05; Tr tr; int w = r.range(0, 3); H::describe("unchecked ", kn[k], " which=", w, " steps=", sub, " dir=", dir); H::nontrivial();
        st x = at(t0); auto s = mk(tr, sc); Sy sy{&tr}; Obs o{&tr}; std::vector<double> ts{t0, t0 + D, t0 + 2 * D};
        char out = guarded([&] { if (w == 0) ode::integrate_times(s, sy, x, ts, dt, o); else if (w == 1) ode::integrate_const(s, sy, x, t0, t0 + 2 * D, k == PLAIN ? dt : D, o); else if (w == 2) ode::integrate_n_steps(s, sy, x, t0, k == PLAIN ? dt : D, 2, o); else ode::integrate_adaptive(s, sy, x, t0, t0 + D, dt, o); });
        HCHECK(out == 'n', "spurious-throw", out); check_continuity(tr, k, t0, dt); }); });
    // rejections: bursts below the bound never throw, endless rejection always does
    auto drive = [](int w, auto &s, Sy &sy, st &x, double t0, double dt, Obs &o, bool checked, long nint) {
        std::vector<double> ts; for (long i = 0; i <= nint; ++i) ts.push_back(t0 + i * dt); ode::max_step_checker big(2000000000);
        if (w == 0) { if (checked) ode::integrate_times(s, sy, x, ts, dt, o, big); else ode::integrate_times(s, sy, x, ts, dt, o); }
        else if (w == 1) { if (checked) ode::integrate_const(s, sy, x, t0, t0 + nint * dt, dt, o, big); else ode::integrate_const(s, sy, x, t0, t0 + nint * dt, dt, o); }
        else if (w == 2) { if (checked) ode::integrate_n_steps(s, sy, x, t0, dt, size_t(nint), o, big); else ode::integrate_n_steps(s, sy, x, t0, dt, size_t(nint), o); }
        else ode::integrate_adaptive(s, sy, x, t0, t0 + nint * dt, dt, o); };
    H::group("bursts", 160, [drive](Rng &r) {
        int w = r.range(0, 3); bool chk = r.coin(); int burst = r.coin() ? r.range(380, 450) : r.range(2, 300); Script sc(r.u64(), r.uni(0.05, 0.5), 30, 0.985, 1.0, burst); sc.shrink_hi = 0.999; sc.minburst = burst * 2 / 3; sc.max_bursts = r.range(3, 12); double dt = r.sign() * 0.5, t0 = r.dy(-5, 5, 4); Tr tr; tr.budget = 2000000;
        H::describe("bursts which=", w, " chk=", chk, " burst=", burst, " p=", sc.preject, " dt=", dt); H::nontrivial(); st x = at(t0); Sy sy{&tr}; Obs o{&tr}; Ctrl<ode::controlled_stepper_tag> s(tr, sc);
        char out = guarded([&] { drive(w, s, sy, x, t0, dt, o, chk, 8); }); HCHECK(out == 'n', "spurious-throw", out, " with bursts of at most ", burst, " rejections"); check_continuity(tr, CTRL, t0, dt); if (out == 'n') HCHECK(isat(x, t0 + 8 * dt), "final-state", ""); H::count("rejections", tr.rejects); });
    H::group("endless-rejection", 80, [drive](Rng &r) {
        int w = r.range(0, 3); bool chk = r.coin(); int pre = r.range(0, 5); struct Sc2 {}; Script sc(r.u64(), 0, 1, 0.99, 0.125); sc.shrink_hi = 0.999; double dt = r.sign() * 0.125, t0 = r.dy(-5, 5, 4); Tr tr;
        sc.preject = 1; sc.burst = 100000000; sc.minburst = 100000000; // rejects from the first step on, or after some accepted ones
        H::describe("endless which=", w, " chk=", chk, " pre=", pre, " dt=", dt); H::nontrivial(); st x = at(t0); Sy sy{&tr}; Obs o{&tr}; Ctrl<ode::controlled_stepper_tag> s(tr, sc);
        if (pre) { s.sc->preject = 0; s.sc->mindt = 0.05; try { drive(w, s, sy, x, t0, dt, o, chk, pre); } catch (...) { H::violation("spurious-throw", "smooth start"); } t0 += pre * dt; s.sc->preject = 1; s.sc->mindt = 0; }
        long rj = tr.rejects; size_t no = tr.obs; char out = guarded([&] { drive(w, s, sy, x, t0, dt, o, chk, 3); }); HCHECK(out == 'a', "rejection-unbounded", "outcome ", out); HCHECK(tr.rejects - rj <= 1000 && tr.rejects - rj >= 450, "rejection-bound", tr.rejects - rj, " rejections before the exception"); HCHECK(tr.obs == long(no) + 1, "prefix", tr.obs - no, " observations"); HCHECK(isat(x, t0), "state-after-throw", x[1]); });
    H::group("dense-and-controlled-real", 120, [](Rng &r) {
        typedef ode::runge_kutta_dopri5<st> dp; typedef ode::runge_kutta_cash_karp54<st> ck; typedef ScriptChecker<dp::algebra_type, dp::operations_type> SC; typedef ScriptChecker<ck::algebra_type, ck::operations_type> SC2;
        bool endless = r.coin(0.3); ErrScript es; es.bursts.reset(new std::vector<int>); es.tries.reset(new long(0)); es.left.reset(new int(0)); int nb = r.range(1, 6); if (endless) { for (int i = 0; i < nb; ++i) es.bursts->push_back(1000000000); } else for (int i = 0; i < nb; ++i) es.bursts->push_back(r.range(1, 60)); 
        int w = r.range(0, 5); double dt = r.sign() * 0.25, t0 = r.uni(-3, 3); H::describe("scripted real which=", w, " endless=", endless, " bursts=", nb, " dt=", dt, " t0=", t0); H::nontrivial();
        auto sys = [](const st &, st &d, double) { d[0] = 3; d[1] = 1; }; st x = at(t0); double t1 = t0 + 7.3 * dt; std::vector<double> seen; auto obs = [&](const st &, double t) { seen.push_back(t); if (seen.size() > 200000) throw H::Budget(); };
        char out = guarded([&] {
            if (w == 0) ode::integrate_adaptive(ode::dense_output_runge_kutta<ode::controlled_runge_kutta<dp, SC>>(ode::controlled_runge_kutta<dp, SC>(SC{es})), sys, x, t0, t1, dt, obs);
            else if (w == 1) ode::integrate_const(ode::dense_output_runge_kutta<ode::controlled_runge_kutta<dp, SC>>(ode::controlled_runge_kutta<dp, SC>(SC{es})), sys, x, t0, t1, dt / 3, obs);
            else if (w == 2) ode::integrate_n_steps(ode::controlled_runge_kutta<dp, SC>(SC{es}), sys, x, t0, dt, 7, obs);
            else if (w == 3) ode::integrate_times(ode::controlled_runge_kutta<ck, SC2>(SC2{es}), sys, x, std::vector<double>{t0, t0 + dt, t0 + 5 * dt}, dt, obs);
            else if (w == 4) { ode::dense_output_runge_kutta<ode::controlled_runge_kutta<dp, SC>> s{ode::controlled_runge_kutta<dp, SC>(SC{es})}; s.initialize(x, t0, dt); for (int i = 0; i < 20; ++i) s.do_step(sys); x = s.current_state(); }
            else ode::integrate_adaptive(ode::controlled_runge_kutta<ck, SC2>(SC2{es}), sys, x, t0, t1, dt, obs); });
        if (endless) { HCHECK(out == 'a', "rejection-unbounded", "outcome ", out); HCHECK(*es.tries >= 450 && *es.tries <= 1000 + 5, "rejection-bound", *es.tries); } else { HCHECK(out == 'n', "spurious-throw", out); HCHECK(std::fabs(x[0] - phase(x[1])) < 1e-9 * (1 + std::fabs(x[0])), "final-state", x[0], " ", x[1]); } H::count(std::string("outcome-real-") + out); });
    H::group("bulirsch-stoer-real", 160, [](Rng &r) { // extrapolation steppers with an algebra whose norm is scripted: bad marks the times from which on every step is judged too inaccurate
        int w = r.range(0, 6), mode = r.range(0, 2); double dir = r.sign(), dt = dir * r.uni(0.01, 0.4), t0 = r.uni(-3, 3), t1 = t0 + dir * 6, ts = mode == 0 ? t0 - dir : t0 + dir * r.uni(0.5, 3), mx = r.coin(0.3) ? dir * r.uni(0.2, 2) : 0, bad = r.coin() ? 1.05 : r.uni(1.1, 4);
        H::describe("bs mode=", mode, " which=", w, " dt=", dt, " t0=", t0, " bad from ", ts, " norm=", bad, " max_dt=", mx); H::nontrivial(); st x = {{0.3, 1.0}}; long nev = 0, late = 0, nobs = 0, nevbad = 0; double &norm = ScriptNorm::value(); norm = 1e-3; long finite = mode == 2 ? r.range(1, 60) : -1; ScriptNorm::calls() = 0;
        auto sys = [&](const st &q, st &d, double t) { if (++nev > 3000000) throw H::Budget(); if ((t - ts) * dir >= 0 && (finite < 0 || ScriptNorm::calls() < finite)) { norm = bad; ++nevbad; } else { norm = 1e-3; } d[0] = q[1] * std::cos(t); d[1] = -q[0]; };
        auto obs = [&](const st &q, double t) { ++nobs; if (mode == 1 && (t - ts) * dir > 1e-9) ++late; if (nobs > 200000) throw H::Budget(); };
        typedef ode::bulirsch_stoer<st, double, st, double, ScriptNorm, ode::default_operations> BC; typedef ode::bulirsch_stoer_dense_out<st, double, st, double, ScriptNorm, ode::default_operations> BD;
        auto C = [&] { return mx != 0 ? BC(1e-5, 1e-5, 1.0, 1.0, mx) : BC(1e-5, 1e-5); }; auto D = [&] { return mx != 0 ? BD(1e-5, 1e-5, 1.0, 1.0, mx) : BD(1e-5, 1e-5); };
        std::vector<double> tv; for (double t = t0; (t1 - t) * dir >= 0; t += 3 * dt) tv.push_back(t); if (tv.size() < 2 || (tv.back() - ts) * dir <= 0) tv.push_back(t1);
        char out = guarded([&] {
            if (w == 0) ode::integrate_adaptive(C(), sys, x, t0, t1, dt, obs); else if (w == 1) ode::integrate_const(C(), sys, x, t0, t1, dt, obs); else if (w == 2) ode::integrate_times(C(), sys, x, tv, dt, obs);
            else if (w == 3) ode::integrate_adaptive(D(), sys, x, t0, t1, dt, obs); else if (w == 4) ode::integrate_const(D(), sys, x, t0, t1, dt, obs); else if (w == 5) ode::integrate_times(D(), sys, x, tv, dt, obs);
            else { auto s = D(); s.initialize(x, t0, dt); while ((t1 - s.current_time()) * dir > 0) { s.do_step(sys); obs(s.current_state(), s.current_time()); } } });
        if (mode == 2) HCHECK(out == 'n', "spurious-throw", out, " with at most ", finite, " rejections");
        else { HCHECK(out == 'a', "rejection-unbounded", "outcome ", out, " after ", nev, " evaluations"); HCHECK(nevbad >= 3000 && nevbad < 400000, "rejection-bound", nevbad, " evaluations of rejected steps"); HCHECK(late == 0, "rejected-step-observed", late, " observations of rejected steps"); }
        H::count(std::string("outcome-bs-") + out); H::count("evaluations-bs", nev); });
}
#else
static inline void part_guard() {}
#endif
