// Runs of steppers on parallel states, leaving a trace that can be compared with the serial run.  Used by drv/omp.cpp (C19) and drv/mpi.cpp (C20).
#ifndef VERIF_PAR_HPP
#define VERIF_PAR_HPP
#include "zoo.hpp"
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
using namespace Z; using H::Rng;
// Flat<X>::get: all elements in order; set(x, v, model): writes them, model has the layout
template <class X> struct Flat { static vec get(const X &x) { return vec(x.begin(), x.end()); } template <class M> static void set(X &x, const vec &v, const M &) { std::copy(v.begin(), v.end(), x.begin()); } };
struct Sy { const T::Prob *p; T::Log *l; template <class X, class D> void operator()(const X &x, D &d, double t) const { if (++l->calls > l->budget) throw H::Budget(); vec a = Flat<X>::get(x), b(a.size()); for (size_t i = 0; i < a.size(); ++i) b[i] = -0.7 * a[i] + 0.5 * std::sin(a[(i + 1) % a.size()] + 0.1 * i) + 0.3 * std::cos(t + i); Flat<D>::set(d, b, x); } };
struct SF { template <class X, class D> void operator()(const X &x, D &d) const { vec a = Flat<X>::get(x); Flat<D>::set(d, a, x); } };
struct SG { template <class X, class D> void operator()(const X &x, D &d) const { vec a = Flat<X>::get(x), b(a.size()); for (size_t i = 0; i < a.size(); ++i) b[i] = -std::sin(a[i]) - 0.2 * a[(i + 1) % a.size()]; Flat<D>::set(d, b, x); } };
template <class X, class A> struct Steppers {
    typedef ode::default_operations O; enum { N = 13 };
#define PS5 X, double, X, double, A, O
    // performs run `which` and leaves a trace
    template <class St> static void plain(St s, X x, double t, double h, int n, std::vector<double> &tr, T::Log &l) { Sy y{nullptr, &l}; for (int i = 0; i < n; ++i) { s.do_step(y, x, t, h); t += h; vec v = Flat<X>::get(x); tr.insert(tr.end(), v.begin(), v.end()); } }
    template <class St> static void adaptive(St s, X x, double t, double h, int n, std::vector<double> &tr, T::Log &l) { Sy y{nullptr, &l}; size_t k = ode::integrate_adaptive(s, y, x, t, t + n * h, h, [&](const X &z, double tt) { tr.push_back(tt); vec v = Flat<X>::get(z); tr.insert(tr.end(), v.begin(), v.end()); }); tr.push_back(double(k)); }
    static void run(int w, const X &x, double t, double h, int n, std::vector<double> &tr, T::Log &l) {
        typedef ode::controlled_runge_kutta<ode::runge_kutta_dopri5<PS5>, ode::default_error_checker<double, A, O>> CD; typedef ode::controlled_runge_kutta<ode::runge_kutta_cash_karp54<PS5>, ode::default_error_checker<double, A, O>> CC; typedef ode::default_error_checker<double, A, O> EC;
        switch (w) {
        case 0: plain(ode::runge_kutta4<PS5>(), x, t, h, n, tr, l); break; case 1: plain(ode::euler<PS5>(), x, t, h, n, tr, l); break; case 2: plain(ode::runge_kutta_fehlberg78<PS5>(), x, t, h, n, tr, l); break; case 3: plain(ode::runge_kutta_dopri5<PS5>(), x, t, h, n, tr, l); break;
        case 4: plain(ode::adams_bashforth<4, PS5>(), x, t, h, n, tr, l); break; case 5: plain(ode::adams_bashforth_moulton<3, PS5>(), x, t, h, n, tr, l); break; case 6: plain(ode::extrapolation_stepper<4, PS5>(), x, t, h, n, tr, l); break;
        case 7: adaptive(CD(EC(1e-6, 1e-6)), x, t, h, n, tr, l); break; case 8: adaptive(CC(EC(1e-7, 1e-5)), x, t, h, n, tr, l); break; case 9: adaptive(ode::bulirsch_stoer<PS5>(1e-6, 1e-6), x, t, h, n, tr, l); break; case 10: adaptive(ode::dense_output_runge_kutta<CD>(CD(EC(1e-6, 1e-6))), x, t, h, n, tr, l); break; case 11: adaptive(ode::bulirsch_stoer_dense_out<PS5>(1e-6, 1e-6), x, t, h, n, tr, l); break;
        default: { ode::symplectic_rkn_sb3a_mclachlan<X, X, double, X, X, double, A, O> s; std::pair<X, X> q(x, x); for (int i = 0; i < n; ++i) { s.do_step(std::make_pair(SF(), SG()), q, t, h); vec a = Flat<X>::get(q.first); tr.insert(tr.end(), a.begin(), a.end()); a = Flat<X>::get(q.second); tr.insert(tr.end(), a.begin(), a.end()); } } } }
};
template <class X, class A> void compare(Rng &r, const X &x, int which, const std::string &what) {
    double t = r.uni(-3, 3), h = r.sign() * r.uni(0.02, 0.3); int n = r.range(1, 6); vec v = Flat<X>::get(x); T::Log l1, l2; std::vector<double> a, b; H::describe(what, " stepper=", which, " len=", v.size(), " h=", h, " n=", n); H::nontrivial(v.size() > 1); Steppers<X, A>::run(which, x, t, h, n, a, l1); Steppers<vec, ode::range_algebra>::run(which, v, t, h, n, b, l2);
    HREQUIRE(l1.calls == l2.calls && a.size() == b.size(), "different-steps", l1.calls, " evaluations, serial ", l2.calls); double d = T::diff(a, b, int(a.size())); H::maxi("deviation", d); HREQUIRE(d <= 1e-13, "differs", "differs from the serial run by ", d); H::count("values-compared", long(a.size())); }
#endif
