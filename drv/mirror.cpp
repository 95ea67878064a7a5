// C15: every run is executed twice, forward on the problem and backward on the mirrored problem; the two logs must agree.
// PART 0: plain steppers, 1: controlled, 2: dense output, 3-5: integrate functions and iterators (plain, controlled, dense steppers)
#include "zoo.hpp"
#include "tab.hpp"
#include <boost/numeric/odeint/stepper/adams_moulton.hpp>
#include <boost/numeric/odeint/stepper/explicit_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/integrate/integrate.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/integrate/max_step_checker.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_iterator.hpp>
using namespace Z; using H::Rng;
struct Lg { double sg; std::vector<double> v; std::vector<const char *> w; void put(const char *k, double x) { if (v.size() > 400000) throw H::Budget(); v.push_back(x); w.push_back(k); } void time(const char *k, double t) { put(k, sg * t); } template <class X> void state(const X &x, int n, const char *k = "state") { for (int i = 0; i < n; ++i) put(k, x[i]); } };
// largest magnitudes seen so far scale the tolerance; decisions must be identical
static void same(const Lg &f, const Lg &b, double tol) {
    size_t m = std::min(f.v.size(), b.v.size()); double big = 1;
    for (size_t i = 0; i < m; ++i) { big = std::max(big, std::fabs(f.v[i])); double d = std::fabs(f.v[i] - b.v[i]); if (f.v[i] == b.v[i]) d = 0; if (std::isnan(f.v[i]) && std::isnan(b.v[i])) d = 0; if (!(d <= tol * big) || f.w[i] != b.w[i]) { H::violation(f.w[i], H::cat("entry ", i, " of ", f.v.size(), ": forward ", f.w[i], " ", f.v[i], " backward ", b.w[i], " ", b.v[i])); throw H::Abort(); } H::maxi("mirror-deviation", d / big); }
    HREQUIRE(f.v.size() == b.v.size(), "length", "forward log has ", f.v.size(), " entries, backward ", b.v.size()); H::count("compared-values", long(m));
}
struct In { T::Prob p, q; double t0, h; int n; vec x0; T::Log l; const T::Prob &prob(double sg) const { return sg > 0 ? p : q; } };
static In input(Rng &r, double hlo, double hhi, bool rough = false) {
    In a; a.n = r.range(1, 5); a.p = T::Prob::make(r, a.n, 2.5, rough ? 1.5 : 0.5); a.q = a.p.mirrored(); a.t0 = r.coin(0.2) ? 0 : r.uni(-20, 20); a.h = r.logu(hlo, hhi); a.x0 = a.p.exact(a.t0); if (r.coin(0.6)) for (auto &v : a.x0) v += r.uni(-1, 1); return a;
}
// run(sg, log, rng): the random decisions inside are the same in both runs
template <class F> void both(In &in, Rng &r, F run, double tol = 1e-11) { uint64_t sd = r.u64(); Lg f{1, {}, {}}, b{-1, {}, {}}; { Rng q(sd); run(1.0, f, q); } { Rng q(sd); run(-1.0, b, q); } same(f, b, tol); }
#define DESC(nm) H::describe(nm, " dim=", in.n, " t0=", in.t0, " h=", in.h); H::nontrivial()
#if PART == 0
template <class Tag, class Mk> void plain(const char *nm, Mk mk, int reps = 60) {
    H::group(nm, reps, [&](Rng &r) { In in = input(r, 1e-3, 0.4); DESC(nm);
        both(in, r, [&](double sg, Lg &L, Rng &q) { auto s = mk(); auto sy = Tag::system(in.prob(sg), in.l); auto x = Tag::make(in.x0); double t = sg * in.t0; int k = q.range(1, 20); for (int i = 0; i < k; ++i) { if (q.coin(0.3)) { auto o = x; s.do_step(sy, x, t, o, sg * in.h); x = o; } else s.do_step(sy, x, t, sg * in.h); t += sg * in.h; L.state(x, in.n); } }); });
}
template <class Mk> void witherr(const char *nm, Mk mk) {
    H::group(std::string(nm) + "-error", 60, [&](Rng &r) { In in = input(r, 1e-3, 0.4); DESC(nm);
        both(in, r, [&](double sg, Lg &L, Rng &) { auto s = mk(); auto sy = SysE::system(in.prob(sg), in.l); vec x = in.x0, e(in.n); double t = sg * in.t0; for (int i = 0; i < 6; ++i) { s.do_step(sy, x, t, sg * in.h, e); t += sg * in.h; L.state(x, in.n); L.state(e, in.n, "error"); } }, 1e-10); });
}
// separable systems: q' = s f(p), p' = s g(q)
struct SF { double s; void operator()(const vec &p, vec &d) const { for (size_t i = 0; i < p.size(); ++i) d[i] = s * (p[i] + 0.3 * std::sin(p[i])); } };
struct SG { double s; void operator()(const vec &q, vec &d) const { for (size_t i = 0; i < q.size(); ++i) d[i] = -s * (std::sin(q[i]) + 0.2 * q[(i + 1) % q.size()]); } };
template <class S> void sympl(const char *nm) {
    H::group(nm, 60, [&](Rng &r) { int n = r.range(1, 5); vec q0(n), p0(n); for (auto &v : q0) v = r.uni(-2, 2); for (auto &v : p0) v = r.uni(-2, 2); double h = r.logu(1e-3, 0.4), t0 = r.uni(-5, 5); H::describe(nm, " dim=", n, " h=", h); H::nontrivial(); In in;
        both(in, r, [&](double sg, Lg &L, Rng &g) { S s; auto x = std::make_pair(q0, p0); double t = sg * t0; int k = g.range(1, 60); for (int i = 0; i < k; ++i) { s.do_step(std::make_pair(SF{sg}, SG{sg}), x, t, sg * h); t += sg * h; L.state(x.first, n); L.state(x.second, n); } }); });
}
#endif
#if PART == 1
template <class Tag, class Mk> void ctrl(const char *nm, Mk mk, bool limits, double tol = 1e-10, int reps = 60, bool oop = true) {
    H::group(nm, reps, [&](Rng &r) { In in = input(r, 1e-3, 3, true); double eps = r.logu(1e-10, 1e-3), er = r.coin(0.3) ? 0 : r.logu(1e-10, 1e-3), lim = limits && r.coin(0.5) ? r.logu(0.02, 0.5) : 0; H::describe(nm, " dim=", in.n, " t0=", in.t0, " h=", in.h, " eps=", eps, " erel=", er, " max=", lim); H::nontrivial(); if (lim > 0) H::count("with-step-limit");
        long rej = 0, acc = 0;
        both(in, r, [&](double sg, Lg &L, Rng &q) { auto s = mk(eps, er, sg * lim); auto sy = Tag::system(in.prob(sg), in.l); auto x = Tag::make(in.x0); double t = sg * in.t0, dt = sg * in.h;
            for (int i = 0; i < 30; ++i) { double tb = t, db = dt; ode::controlled_step_result c; if (oop && q.coin(0.3)) { auto o = x; c = s.try_step(sy, x, t, o, dt); if (c == ode::success) x = o; } else c = s.try_step(sy, x, t, dt);
                L.put("verdict", c == ode::success); L.time("time", t); L.time("proposed-step", dt); L.state(x, in.n); (c == ode::success ? acc : rej)++; HREQUIRE(dt * sg > 0 && std::isfinite(dt), "step-direction", "proposed ", dt, " after ", db); HREQUIRE(c == ode::success ? t == tb + db : t == tb, "time-advance", t, " from ", tb, " by ", db); if (lim > 0) HREQUIRE(std::fabs(dt) <= lim * (1 + 1e-12) || (c == ode::fail && std::fabs(dt) < std::fabs(db)), "step-limit", dt, " limit ", lim); if (q.coin(0.1)) dt *= q.uni(0.3, 3); if (lim > 0 && std::fabs(dt) > lim) dt = sg * lim; } }, tol);
        H::count("accepted", acc); H::count("rejected", rej); });
}
#endif
#if PART == 2
template <class Tag, class Mk> void dense(const char *nm, Mk mk, bool limits, int reps = 60) {
    H::group(nm, reps, [&](Rng &r) { In in = input(r, 1e-3, 2); double eps = r.logu(1e-9, 1e-3), lim = limits && r.coin(0.5) ? r.logu(0.02, 0.5) : 0; H::describe(nm, " dim=", in.n, " t0=", in.t0, " h=", in.h, " eps=", eps, " max=", lim); H::nontrivial();
        both(in, r, [&](double sg, Lg &L, Rng &q) { auto s = mk(eps, sg * lim); auto sy = Tag::system(in.prob(sg), in.l); s.initialize(Tag::make(in.x0), sg * in.t0, sg * in.h); auto o = Tag::make(in.x0);
            for (int i = 0; i < 14; ++i) { auto pr = s.do_step(sy); L.time("interval-begin", pr.first); L.time("interval-end", pr.second); L.time("next-step", s.current_time_step()); L.state(s.current_state(), in.n); L.state(s.previous_state(), in.n, "previous-state"); HREQUIRE(sg * (pr.second - pr.first) > 0, "direction", pr.first, " to ", pr.second);
                for (int k = 0; k < 3; ++k) { double th = q.u01(); s.calc_state(pr.first + th * (pr.second - pr.first), o); L.state(o, in.n, "interpolated"); }
                if (q.coin(0.1)) { double h = q.logu(1e-3, 0.5); s.initialize(s.current_state(), s.current_time(), sg * h); } } }, 1e-9); });
}
#endif
#if PART >= 3
struct Ob { Lg *L; int n; template <class X> void operator()(const X &x, double t) const { L->time("observed-time", t); L->state(x, n, "observed-state"); } };
template <class S, class Y, class X> void adap(S &, Y &, X &, double, double, double, Ob &, std::false_type) {}
template <class S, class Y, class X> void adap(S &s, Y &sy, X &x, double t0, double t1, double dt, Ob &o, std::true_type) { for (auto i = ode::make_adaptive_time_iterator_begin(s, sy, x, t0, t1, dt), e = ode::make_adaptive_time_iterator_end(s, sy, x); i != e; ++i) o(i->first, i->second); }
template <class S, class Y, class X> void grid(S &, Y &, X &, double, double, double, long, Ob &, Lg &, int, std::false_type) {}
template <class S, class Y, class X> void grid(S &s, Y &sy, X &x, double t0, double t1, double dt, long ns, Ob &o, Lg &L, int what, std::true_type) {
    if (what == 5) for (auto i = ode::make_const_step_time_iterator_begin(s, sy, x, t0, t1, dt), e = ode::make_const_step_time_iterator_end(s, sy, x); i != e; ++i) o(i->first, i->second);
    if (what == 6) for (auto i = ode::make_n_step_time_iterator_begin(s, sy, x, t0, dt, ns), e = ode::make_n_step_time_iterator_end(s, sy, x); i != e; ++i) o(i->first, i->second);
    if (what == 9) for (auto i = ode::make_const_step_iterator_begin(s, sy, x, t0, t1, dt), e = ode::make_const_step_iterator_end(s, sy, x); i != e; ++i) L.state(*i, o.n);
}
template <class Tag, class Mk> void integ(const char *nm, Kind kind, Mk mk) {
    In *pin; Rng *pr; (void)pin; (void)pr;
    H::group(nm, 80, [&](Rng &r) { In in = input(r, 0.01, 0.6); double len = r.uni(0.05, 6); int what = r.range(0, 9); long ns = r.range(0, 30); std::vector<double> ts; double t = in.t0; for (int i = r.range(1, 12); i > 0; --i) { ts.push_back(t); t += r.logu(0.01, 1); } if (r.coin(0.3)) { in.t0 = std::floor(in.t0 * 16) / 16; in.h = std::ceil(in.h * 16) / 16; len = in.h * r.range(1, 20); ts[0] = in.t0; for (size_t i = 1; i < ts.size(); ++i) ts[i] = ts[i - 1] + r.range(1, 16) / 16.0; }
        H::describe(nm, " what=", what, " dim=", in.n, " t0=", in.t0, " h=", in.h, " len=", len, " n=", ns); H::nontrivial();
        both(in, r, [&](double sg, Lg &L, Rng &) { auto s = mk(); auto sy = Tag::system(in.prob(sg), in.l); auto x = Tag::make(in.x0); double t0 = sg * in.t0, t1 = sg * (in.t0 + len), dt = sg * in.h; Ob o{&L, in.n}; std::vector<double> tt; for (double u : ts) tt.push_back(sg * u);
            switch (what) {
            case 0: L.put("steps", ode::integrate_const(s, sy, x, t0, t1, dt, o)); break;
            case 1: L.time("end", ode::integrate_n_steps(s, sy, x, t0, dt, ns, o)); break;
            case 2: L.put("steps", ode::integrate_adaptive(s, sy, x, t0, t1, dt, o)); break;
            case 3: L.put("steps", ode::integrate_times(s, sy, x, tt.begin(), tt.end(), dt, o)); break;
            case 4: L.put("steps", ode::integrate_const(s, sy, x, t0, t1, dt, o, ode::max_step_checker(500))); break;
            case 8: for (auto i = ode::make_times_time_iterator_begin(s, sy, x, tt.begin(), tt.end(), dt), e = ode::make_times_time_iterator_end<decltype(tt.begin())>(s, sy, x); i != e; ++i) o(i->first, i->second); break;
            case 7: adap(s, sy, x, t0, t1, dt, o, std::integral_constant<bool, Tag::IT != 0>()); break;
            default: grid(s, sy, x, t0, t1, dt, ns, o, L, what, std::integral_constant<bool, Tag::IT != 1>()); }
            L.state(x, what < 5 ? in.n : 0, "final-state"); }, 1e-9); });
}
template <class B, int I> struct Tg : B { enum { IT = I }; };
struct Fwd { template <class Tag, class Mk> void operator()(const char *nm, Kind k, Tag, Mk mk) { integ<Tg<Tag, PART - 3>>(nm, k, mk); } };
#endif
#define S(...) [] { return __VA_ARGS__; }
struct IeTag { typedef uvec state; static state make(const vec &v) { return SysI::make(v); } struct J { const T::Prob *p; void operator()(const uvec &x, umat &m, double t) const { uvec d(x.size()); p->jac<double>(x, m, t, d); } }; static std::pair<T::Sys, J> system(const T::Prob &p, T::Log &l) { return std::make_pair(T::Sys(p, l), J{&p}); } };
int main(int c, char **v) {
    H::init(c, v, "mirror");
#if PART == 0
    plain<SysE>("euler", S(ode::euler<vec>())); plain<SysE>("rk4", S(ode::runge_kutta4<vec>())); plain<SysE>("rk4-classic", S(ode::runge_kutta4_classic<vec>())); plain<SysE>("ck54", S(ode::runge_kutta_cash_karp54<vec>())); plain<SysE>("ck54-classic", S(ode::runge_kutta_cash_karp54_classic<vec>())); plain<SysE>("dopri5", S(ode::runge_kutta_dopri5<vec>())); plain<SysE>("rkf78", S(ode::runge_kutta_fehlberg78<vec>()));
    plain<SysE>("midpoint", S(ode::modified_midpoint<vec>(6))); plain<SysE>("extrapolation4", S(ode::extrapolation_stepper<4, vec>())); plain<SysE>("extrapolation8", S(ode::extrapolation_stepper<8, vec>()));
    plain<SysE>("ab1", S(ode::adams_bashforth<1, vec>())); plain<SysE>("ab3", S(ode::adams_bashforth<3, vec>())); plain<SysE>("ab6", S(ode::adams_bashforth<6, vec>())); plain<SysE>("ab8", S(ode::adams_bashforth<8, vec>())); plain<SysE>("abm2", S(ode::adams_bashforth_moulton<2, vec>())); plain<SysE>("abm5", S(ode::adams_bashforth_moulton<5, vec>())); plain<SysE>("abm8", S(ode::adams_bashforth_moulton<8, vec>())); plain<SysE>("aabm3", S(ode::adaptive_adams_bashforth_moulton<3, vec>())); plain<SysE>("aabm6", S(ode::adaptive_adams_bashforth_moulton<6, vec>()));
    plain<SysI>("rosenbrock4", S(ode::rosenbrock4<double>()));
    H::group("implicit-euler", 60, [&](Rng &r) { In in = input(r, 1e-3, 0.3); DESC("implicit-euler"); both(in, r, [&](double sg, Lg &L, Rng &) { ode::implicit_euler<double> s; auto sy = IeTag::system(in.prob(sg), in.l); uvec x = IeTag::make(in.x0); double t = sg * in.t0; for (int i = 0; i < 8; ++i) { s.do_step(sy, x, t, sg * in.h); t += sg * in.h; L.state(x, in.n); } }); });
    witherr("ck54", S(ode::runge_kutta_cash_karp54<vec>())); witherr("dopri5", S(ode::runge_kutta_dopri5<vec>())); witherr("rkf78", S(ode::runge_kutta_fehlberg78<vec>())); witherr("extrapolation6", S(ode::extrapolation_stepper<6, vec>())); witherr("aabm4", S(ode::adaptive_adams_bashforth_moulton<4, vec>()));
    sympl<ode::symplectic_euler<vec>>("symplectic-euler"); sympl<ode::symplectic_rkn_sb3a_mclachlan<vec>>("sb3a"); sympl<ode::symplectic_rkn_sb3a_m4_mclachlan<vec>>("sb3a-m4");
    H::group("velocity-verlet", 60, [&](Rng &r) { int n = r.range(1, 4); vec q0(n), p0(n); for (auto &w : q0) w = r.uni(-2, 2); for (auto &w : p0) w = r.uni(-2, 2); double h = r.logu(1e-3, 0.3), t0 = r.uni(-3, 3); H::describe("velocity-verlet dim=", n, " h=", h); H::nontrivial(); In in; // backward with (q,v) equals forward with (q,-v)
        both(in, r, [&](double sg, Lg &L, Rng &) { ode::velocity_verlet<vec> s; auto f = [](const vec &q, const vec &v, vec &a, double) { for (size_t i = 0; i < q.size(); ++i) a[i] = -std::sin(q[i]) - 0.1 * q[(i + 1) % q.size()]; (void)v; }; auto x = std::make_pair(q0, p0); for (auto &w : x.second) w *= sg; double t = sg * t0; for (int i = 0; i < 30; ++i) { s.do_step(f, x, t, sg * h); t += sg * h; L.state(x.first, n); vec y = x.second; for (auto &w : y) w *= sg; L.state(y, n); } }); });
#elif PART == 1
    // (eps_abs, eps_rel, max_dt); 0: no limit
    ctrl<SysE>("c-ck54", [](double a, double b, double m) { return m ? ode::make_controlled(a, b, m, ode::runge_kutta_cash_karp54<vec>()) : ode::make_controlled(a, b, ode::runge_kutta_cash_karp54<vec>()); }, true);
    ctrl<SysE>("c-dopri5", [](double a, double b, double m) { return m ? ode::make_controlled(a, b, m, ode::runge_kutta_dopri5<vec>()) : ode::make_controlled(a, b, ode::runge_kutta_dopri5<vec>()); }, true, 1e-10, 60, false);
    ctrl<SysE>("c-dopri5-oop", [](double a, double b, double m) { return m ? ode::make_controlled(a, b, m, ode::runge_kutta_dopri5<vec>()) : ode::make_controlled(a, b, ode::runge_kutta_dopri5<vec>()); }, true);
    ctrl<SysE>("c-rkf78", [](double a, double b, double m) { return m ? ode::make_controlled(a, b, m, ode::runge_kutta_fehlberg78<vec>()) : ode::make_controlled(a, b, ode::runge_kutta_fehlberg78<vec>()); }, true);
    ctrl<SysE>("bs", [](double a, double b, double m) { return ode::bulirsch_stoer<vec>(a, b, 1, 0.5, m); }, true, 1e-8);
    ctrl<SysI>("c-ros", [](double a, double b, double m) { return m ? ode::make_controlled(a, b, m, ode::rosenbrock4<double>()) : ode::make_controlled(a, b, ode::rosenbrock4<double>()); }, true);
    ctrl<SysE>("c-aabm3", [](double a, double b, double m) { m = m ? std::fabs(m) : 1.0; typedef ode::adaptive_adams_bashforth_moulton<3, vec> A; return ode::controlled_adams_bashforth_moulton<A>(ode::detail::pid_step_adjuster<vec, double, vec, double, A::algebra_type, A::operations_type, ode::detail::H211PI>(a, b, m)); }, true, 1e-9);
    ctrl<SysE>("c-aabm5", [](double a, double b, double) { return ode::controlled_adams_bashforth_moulton<ode::adaptive_adams_bashforth_moulton<5, vec>>(); }, false, 1e-9);
#elif PART == 2
    dense<SysE>("d-euler", [](double, double) { return ode::dense_output_runge_kutta<ode::euler<vec>>(); }, false); 
    dense<SysE>("d-dopri5", [](double e, double m) { return m ? ode::make_dense_output(e, e, m, ode::runge_kutta_dopri5<vec>()) : ode::make_dense_output(e, e, ode::runge_kutta_dopri5<vec>()); }, true);
    dense<SysE>("d-bs", [](double e, double m) { return ode::bulirsch_stoer_dense_out<vec>(e, e, 1, 1, m); }, true); dense<SysE>("d-bs-interpolation-controlled", [](double e, double m) { return ode::bulirsch_stoer_dense_out<vec>(e, e, 1, 0, m, true); }, true);
    dense<SysI>("d-ros", [](double e, double m) { return m ? ode::make_dense_output(e, e, m, ode::rosenbrock4<double>()) : ode::make_dense_output(e, e, ode::rosenbrock4<double>()); }, true);
#else
    Fwd f; 
#if PART == 3
    for (int i = 0; i < NPLAIN; ++i) zoo_plain(f, i);
#elif PART == 4
    for (int i = 0; i < NCTRL; ++i) zoo_ctrl(f, i, 1e-7, 1e-6);
#else
    for (int i = 0; i < NDENSE; ++i) zoo_dense(f, i, 1e-7, 1e-6);
#endif
#endif
    return H::finish();
}
