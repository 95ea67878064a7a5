// C22: exceptions thrown by the system, the observer or allocations at every point of integrate functions, iterators and ranges.
// PART 0 plain steppers, 1 controlled, 2 dense output
#define A_PART 9
#include "act.hpp"
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/integrate/integrate.hpp>
#include <boost/numeric/odeint/integrate/max_step_checker.hpp>
#include <boost/numeric/odeint/iterator/const_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
using namespace A;
struct ObsErr { long id; };
struct Ob { long calls = 0, throw_at = -1; std::vector<Tr> tr; };
struct Obs { Ob *o; void operator()(const tvec &x, double t) const { if (++o->calls == o->throw_at) throw ObsErr{o->calls}; Tr r(1, t); r.insert(r.end(), x.begin(), x.end()); o->tr.push_back(r); } };
struct Run { double t0, t1, h; int n, what; std::vector<double> ts; };
enum Kd2 { P, C, D };
template <int K> struct Drive {
    template <class S> static void iter(S s, T::Sys y, tvec &x, const Run &r, Obs o, std::true_type) { // controlled and dense: adaptive iterators
        if (r.what == 4) { auto e = ode::make_adaptive_time_iterator_end(s, y, x); for (auto i = ode::make_adaptive_time_iterator_begin(s, y, x, r.t0, r.t1, r.h); i != e; ++i) o(i->first, i->second); }
        else if (r.what == 5) { auto e = ode::make_adaptive_iterator_end(s, y, x); for (auto i = ode::make_adaptive_iterator_begin(s, y, x, r.t0, r.t1, r.h); i != e; ++i) o(*i, 0); }
        else { auto e = ode::make_times_time_iterator_end<std::vector<double>::const_iterator>(s, y, x); for (auto i = ode::make_times_time_iterator_begin(s, y, x, r.ts.begin(), r.ts.end(), r.h); i != e; ++i) o(i->first, i->second); } }
    template <class S> static void iter(S s, T::Sys y, tvec &x, const Run &r, Obs o, std::false_type) {
        if (r.what == 4) { auto e = ode::make_const_step_time_iterator_end(s, y, x); for (auto i = ode::make_const_step_time_iterator_begin(s, y, x, r.t0, r.t1, r.h); i != e; ++i) o(i->first, i->second); }
        else if (r.what == 5) { auto e = ode::make_const_step_iterator_end(s, y, x); for (auto i = ode::make_const_step_iterator_begin(s, y, x, r.t0, r.t1, r.h); i != e; ++i) o(*i, 0); }
        else { auto e = ode::make_n_step_time_iterator_end(s, y, x); for (auto i = ode::make_n_step_time_iterator_begin(s, y, x, r.t0, r.h, r.n); i != e; ++i) o(i->first, i->second); } }
    template <class S> static void go(S s, T::Sys y, tvec &x, const Run &r, Obs o) {
        switch (r.what) { case 0: ode::integrate_const(s, y, x, r.t0, r.t1, r.h, o); break; case 1: ode::integrate_n_steps(s, y, x, r.t0, r.h, r.n, o); break; case 2: ode::integrate_adaptive(s, y, x, r.t0, r.t1, r.h, o); break; case 3: ode::integrate_times(s, y, x, r.ts.begin(), r.ts.end(), r.h, o); break;
        case 7: ode::integrate_const(s, y, x, r.t0, r.t1, r.h, o, ode::max_step_checker(100000)); break; case 8: ode::integrate_times(s, y, x, r.ts.begin(), r.ts.end(), r.h, o, ode::max_step_checker(100000)); break;
        default: iter(s, y, x, r, o, std::integral_constant<bool, K != P>()); } } };
template <int K, class S> void all(const char *nm, S proto, bool hist, int cases = 200) {
    H::group(nm, cases, [&](Rng &r) { long live0 = mem().live; { S s(proto);
        T::Prob p = T::Prob::make(r, r.range(1, 4), 2, 0.4); Run u; u.t0 = r.coin(0.3) ? 0 : r.uni(-4, 4); u.h = r.sign() * r.uni(0.05, 0.3); u.n = r.range(1, 12); u.t1 = u.t0 + (u.n + r.u01()) * u.h; u.what = r.range(0, 8); double t = u.t0; for (int i = 0; i <= u.n; ++i) { u.ts.push_back(t); t += r.uni(0.3, 2) * u.h; }
        vec x0 = p.exact(u.t0); int kind = r.range(0, 2); double pos = r.coin(0.15) ? 0 : r.coin(0.1) ? 0.9999 : r.u01(); bool byref = !hist && u.what < 4 && r.coin(0.3);
        H::describe(nm, " driver=", u.what, " t0=", u.t0, " h=", u.h, " n=", u.n, " fail=", kind == 0 ? "system" : kind == 1 ? "observer" : "allocation", " pos=", pos, byref ? " stepper by reference" : "");
        T::Log l; Ob ref; long al, calls; auto drive = [&](S &st, T::Log &lg, tvec &x, Ob &o) { if (byref) Drive<K>::go(std::ref(st), T::Sys(p, lg), x, u, Obs{&o}); else Drive<K>::go(st, T::Sys(p, lg), x, u, Obs{&o}); };
        { tvec x = Mk<tvec>::make(x0); S s2(s); long a0 = mem().count; drive(s2, l, x, ref); al = mem().count - a0; calls = l.calls; }
        long total = kind == 0 ? calls : kind == 1 ? ref.calls : al; if (total == 0) { H::count("nothing-to-fail"); return; } long j = 1 + std::min(total - 1, long(pos * total)); H::nontrivial(); H::maxi("points-of-failure", total);
        T::Log l2; Ob o; tvec x = Mk<tvec>::make(x0); bool thrown = false; if (kind == 0) l2.throw_at = j; else if (kind == 1) o.throw_at = j; else mem().throw_at = mem().count + j;
        { S s2(s); if (kind == 2) mem().throw_at = mem().count + j;
        try { drive(byref ? s : s2, l2, x, o); }
        catch (const T::UserErr &e) { thrown = kind == 0 && e.id == j; } catch (const ObsErr &e) { thrown = kind == 1 && e.id == j; } catch (const AllocErr &e) { thrown = kind == 2 && e.id == mem().throw_at; }
        mem().throw_at = -1; }
        HREQUIRE(thrown, "exception-lost", "the exception ", j, " of ", total, " did not arrive unchanged"); H::count(kind == 0 ? "system-failed" : kind == 1 ? "observer-failed" : "allocation-failed");
        if (kind == 1) HREQUIRE(long(o.tr.size()) == j - 1 && o.calls == j, "observations", "after the exception of call ", j, " the observer was called ", o.calls, " times");
        if (kind == 0) HREQUIRE(l2.calls == j, "evaluations", "the system was evaluated ", l2.calls, " times, the exception was thrown at ", j);
        HREQUIRE(o.tr.size() <= ref.tr.size(), "observations", "more observations than undisturbed"); for (size_t i = 0; i < o.tr.size(); ++i) { std::string w; HREQUIRE(same(ref.tr[i], o.tr[i], 1e-12, w), "observations", "observation ", i, " before the exception differs: ", w); } H::count("observations-compared", long(o.tr.size()));
        for (double v : x) HREQUIRE(x.size() == x0.size() && std::isfinite(v), "state", "the state is damaged");
        // the same call again
        Ob o2; tvec y = Mk<tvec>::make(x0); T::Log l3; drive(s, l3, y, o2); HREQUIRE(o2.tr.size() == ref.tr.size() && l3.calls == calls, "retry", "the repeated call makes ", o2.tr.size(), " observations and ", l3.calls, " evaluations, undisturbed ", ref.tr.size(), " and ", calls); for (size_t i = 0; i < o2.tr.size(); ++i) { std::string w; HREQUIRE(same(ref.tr[i], o2.tr[i], 1e-12, w), "retry", "observation ", i, ": ", w); }
        } HREQUIRE(mem().live == live0, "leak", mem().live - live0, " state containers are still allocated"); }); }
int main(int c, char **v) { H::init(c, v, "excint");
#if PART == 0
    all<P>("euler", A_RK(euler)(), false); all<P>("rk4", A_RK(runge_kutta4)(), false); all<P>("rkf78", A_RK(runge_kutta_fehlberg78)(), false); all<P>("dopri5", A_RK(runge_kutta_dopri5)(), true); all<P>("ab4", A_K(adams_bashforth, 4)(), true); all<P>("abm3", A_K(adams_bashforth_moulton, 3)(), true);
#elif PART == 1
    all<C>("controlled-ck54", CRK<A_RK(runge_kutta_cash_karp54)>::make(1e-6, 1e-6), false); all<C>("controlled-dopri5", CRK<A_RK(runge_kutta_dopri5)>::make(1e-6, 1e-6), true); all<C>("bulirsch-stoer", A_RK(bulirsch_stoer)(1e-6, 1e-6), true);
#else
    all<D>("dense-euler", ode::dense_output_runge_kutta<A_RK(euler)>(), true); typedef CRK<A_RK(runge_kutta_dopri5)> CD; all<D>("dense-dopri5", ode::dense_output_runge_kutta<CD::type>(CD::make(1e-6, 1e-6)), true); all<D>("dense-bs", A_RK(bulirsch_stoer_dense_out)(1e-6, 1e-6), true);
#endif
    return H::finish(); }
