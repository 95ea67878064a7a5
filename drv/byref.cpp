// C17: integrate functions and iterators: arguments by value leave the caller's stepper, system and observer alone, reference wrappers accumulate.
// PART 0 plain steppers, 1 controlled and dense-output steppers
#include "zoo.hpp"
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/ref.hpp>
using namespace Z; using H::Rng;
struct CF { T::Sys s; long own; template <class X, class D> void operator()(const X &x, D &d, double t) { ++own; s(x, d, t); } };
struct CO { long *all; long own; template <class X> void operator()(const X &, double) { ++own; ++*all; } };
struct Val { enum { ref = 0 }; template <class T> static T &w(T &x) { return x; } };
struct Bst { enum { ref = 1 }; template <class T> static boost::reference_wrapper<T> w(T &x) { return boost::ref(x); } };
struct Std { enum { ref = 1 }; template <class T> static std::reference_wrapper<T> w(T &x) { return std::ref(x); } };
struct Run { double t0, h; int n, what; std::vector<double> ts; };
enum Kd { P, C, D };
template <class S, class Y, class O> void drive(S s, Y y, vec &x, const Run &r, O o) {
    double t1 = r.t0 + r.n * r.h;
    switch (r.what) { case 0: ode::integrate_const(s, y, x, r.t0, t1, r.h, o); break; case 1: ode::integrate_n_steps(s, y, x, r.t0, r.h, r.n, o); break; case 2: ode::integrate_adaptive(s, y, x, r.t0, t1, r.h, o); break; default: ode::integrate_times(s, y, x, r.ts.begin(), r.ts.end(), r.h, o); }
}
// iterators: no observer
template <int K> struct It { template <class S, class Y> static long run(S s, Y y, vec &x, const Run &r) { long c = 0; double t1 = r.t0 + r.n * r.h; if (r.what == 4) { auto e = ode::make_const_step_time_iterator_end(s, y, x); for (auto i = ode::make_const_step_time_iterator_begin(s, y, x, r.t0, t1, r.h); i != e; ++i) ++c; } else { auto e = ode::make_n_step_time_iterator_end(s, y, x); for (auto i = ode::make_n_step_time_iterator_begin(s, y, x, r.t0, r.h, r.n); i != e; ++i) ++c; } return c; } };
struct ItA { template <class S, class Y> static long run(S s, Y y, vec &x, const Run &r) { long c = 0; double t1 = r.t0 + r.n * r.h; if (r.what == 4) { auto e = ode::make_adaptive_time_iterator_end(s, y, x); for (auto i = ode::make_adaptive_time_iterator_begin(s, y, x, r.t0, t1, r.h); i != e; ++i) ++c; } else { auto e = ode::make_times_time_iterator_end<std::vector<double>::const_iterator>(s, y, x); for (auto i = ode::make_times_time_iterator_begin(s, y, x, r.ts.begin(), r.ts.end(), r.h); i != e; ++i) ++c; } return c; } };
template <> struct It<C> : ItA {}; template <> struct It<D> : ItA {};
template <int K> struct Ops; // continue a stepper with further operations, appending to a trace
template <> struct Ops<P> { template <class S> static void begin(S &, const vec &, double, double) {} template <class S, class Y> static void go(S &s, Y y, vec &x, double &t, double h, std::vector<double> &tr) { s.do_step(y, x, t, h); t += h; tr.insert(tr.end(), x.begin(), x.end()); } };
template <> struct Ops<C> { template <class S> static void begin(S &, const vec &, double, double) {} template <class S, class Y> static void go(S &s, Y y, vec &x, double &t, double h, std::vector<double> &tr) { double d = h; tr.push_back(s.try_step(y, x, t, d)); tr.push_back(d); tr.push_back(t); tr.insert(tr.end(), x.begin(), x.end()); } };
template <> struct Ops<D> { template <class S> static void begin(S &s, const vec &x, double t, double h) { s.initialize(x, t, h); } template <class S, class Y> static void go(S &s, Y y, vec &, double &, double, std::vector<double> &tr) { auto p = s.do_step(y); tr.push_back(p.first); tr.push_back(p.second); tr.insert(tr.end(), s.current_state().begin(), s.current_state().end()); } };
template <class S> auto inited(const S &s, int) -> decltype(int(s.is_initialized())) { return s.is_initialized(); }
template <class S> int inited(const S &, long) { return -1; }
template <class S> auto now(const S &s, int) -> decltype(double(s.current_time())) { return s.current_time(); }
template <class S> double now(const S &, long) { return NAN; }
template <int K, class WS, class WY, class WO, class S> void one(S s, const T::Prob &p, Rng &r, Run run, const std::string &nm, bool fsal, bool multi) {
    T::Log l; CF y{T::Sys(p, l), 0}; long all = 0; CO o{&all, 0}; vec x = p.exact(run.t0); int age = r.coin(0.4) ? 0 : r.range(1, 6); std::vector<double> tr; { vec z = x; double t = run.t0; Ops<K>::begin(s, z, t, run.h); for (int i = 0; i < age; ++i) Ops<K>::go(s, T::Sys(p, l), z, t, run.h, tr); }
    S twin(s); vec xa = x; long before = l.calls, obs = 0; 
    if (run.what < 4) drive(WS::w(s), WY::w(y), x, run, WO::w(o)); else { obs = It<K>::run(WS::w(s), WY::w(y), x, run); HREQUIRE(obs > 0, "no-points", nm); }
    long used = l.calls - before; HREQUIRE(run.what >= 4 || all > 0, "no-observation", nm); if (used > 0) H::nontrivial();
    HREQUIRE(y.own == (WY::ref ? used : 0), WY::ref ? "system-reference" : "system-by-value", "the caller's system counted ", y.own, " of ", used, " evaluations");
    if (run.what < 4) HREQUIRE(o.own == (WO::ref ? all : 0), WO::ref ? "observer-reference" : "observer-by-value", "the caller's observer counted ", o.own, " of ", all, " observations");
    if (!WS::ref) { std::vector<double> a, b; vec xs = xa, xt = xa; double ts = run.t0, tt = run.t0; for (int i = 0; i < 6; ++i) { Ops<K>::go(s, T::Sys(p, l), xs, ts, run.h, a); Ops<K>::go(twin, T::Sys(p, l), xt, tt, run.h, b); } HREQUIRE(T::diff(a, b, int(a.size())) <= 1e-12, "stepper-by-value", "the stepper handed over by value continues differently: ", T::str(a, int(a.size())), " instead of ", T::str(b, int(b.size()))); H::count("stepper-by-value"); }
    else { H::count("stepper-by-reference");
        if (multi && run.n >= 6 && run.what < 2) HREQUIRE(inited(s, 0) == 1, "stepper-reference", "the stepper handed over by reference has no history after ", run.n, " steps");
        if (K == D) HREQUIRE((now(s, 0) - run.t0) * run.h > 0, "stepper-reference", "the dense-output stepper handed over by reference stands at ", now(s, 0));
        if (fsal && used > 0) { vec z = x; double t = run.t0, h = run.h; long b = l.calls; std::vector<double> q; Ops<K>::go(s, T::Sys(p, l), z, t, h, q); HREQUIRE(l.calls - b == 6, "stepper-reference", "the FSAL stepper handed over by reference needs ", l.calls - b, " evaluations for its next step"); } }
}
template <int K, class S> void all(const char *nm, S s, bool fsal, bool multi) {
    H::group(nm, 240, [&](Rng &r) { T::Prob p = T::Prob::make(r, r.range(1, 4), 2, 0.4); Run u; u.t0 = r.dy(-4, 4, 4); u.h = r.sign() * r.dy(0.0625, 0.25, 4); if (u.h == 0) u.h = 0.125; u.n = r.range(2, 16); u.what = r.range(0, 5); for (int i = 0; i <= u.n; ++i) u.ts.push_back(u.t0 + i * 1.5 * u.h); int m = r.range(0, 6);
        H::describe(nm, " mode=", m, " driver=", u.what, " t0=", u.t0, " h=", u.h, " n=", u.n);
        switch (m) { case 0: one<K, Val, Val, Val>(s, p, r, u, nm, fsal, multi); break; case 1: one<K, Bst, Bst, Bst>(s, p, r, u, nm, fsal, multi); break; case 2: one<K, Std, Std, Std>(s, p, r, u, nm, fsal, multi); break; case 3: one<K, Val, Bst, Std>(s, p, r, u, nm, fsal, multi); break; case 4: one<K, Bst, Val, Val>(s, p, r, u, nm, fsal, multi); break; case 5: one<K, Val, Val, Bst>(s, p, r, u, nm, fsal, multi); break; default: one<K, Val, Std, Val>(s, p, r, u, nm, fsal, multi); } });
}
int main(int c, char **v) {
    H::init(c, v, "byref");
#if PART == 0
    all<P>("rk4", ode::runge_kutta4<vec>(), false, false); all<P>("dopri5", ode::runge_kutta_dopri5<vec>(), true, false); all<P>("ab4", ode::adams_bashforth<4, vec>(), false, true); all<P>("abm4", ode::adams_bashforth_moulton<4, vec>(), false, false);
#elif PART == 1
    all<C>("c-ck54", ode::make_controlled(1e-5, 1e-5, ode::runge_kutta_cash_karp54<vec>()), false, false); all<C>("c-dopri5", ode::make_controlled(1e-5, 1e-5, ode::runge_kutta_dopri5<vec>()), true, false);
    all<D>("d-dopri5", ode::make_dense_output(1e-5, 1e-5, ode::runge_kutta_dopri5<vec>()), false, false);
#else
    all<C>("bs", ode::bulirsch_stoer<vec>(1e-5, 1e-5), false, false); all<D>("d-euler", ode::dense_output_runge_kutta<ode::euler<vec>>(), false, false); all<D>("d-bs", ode::bulirsch_stoer_dense_out<vec>(1e-5, 1e-5), false, false);
#endif
    return H::finish();
}
