// C16: the value type. Graded polynomial systems: component w is driven by a polynomial of weight w-1 in time (weight 1) and the
// components (weight = number), so a method of order p is exact up to the round-off OF THE VALUE TYPE in all components of weight <= p,
// and its embedded error vanishes for weight <= p-1.  PART 0 float, 1 long double, 2 cpp_bin_float_50, 3 boost::rational-like exactness is not needed; complex<double>.
#include "h.hpp"
#include <complex>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/numeric/odeint/config.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
using H::Rng; namespace ode = boost::numeric::odeint; namespace mp = boost::multiprecision;
typedef mp::number<mp::cpp_bin_float<100>, mp::et_off> X; // exact reference
#if PART == 0
typedef float V; typedef float S; static const double EPS = 1.2e-7;
#elif PART == 1
typedef long double V; typedef long double S; static const double EPS = 1.1e-19;
#elif PART == 2
typedef mp::number<mp::cpp_bin_float<50>, mp::et_off> V; typedef V S; static const double EPS = 1e-50;
#else
typedef double V; typedef std::complex<double> S; static const double EPS = 2.3e-16;
#endif
typedef std::vector<S> St;
enum { N = 8 };
// terms of component w: c * t^a * x_u^b * x_v^d with a + b*u + d*v <= w-1
struct Term { double c; int a, u, b, v, d; };
struct Sys {
    std::vector<Term> f[N];
    static Sys make(Rng &r) { Sys s; for (int w = 1; w <= N; ++w) { int m = r.range(2, 4); for (int k = 0; k < m; ++k) { Term t; t.c = std::ldexp(r.range(-255, 255), -8); t.a = t.u = t.b = t.v = t.d = 0; int left = w - 1; if (left && r.coin(0.9)) { t.u = r.range(std::max(1, left - 2), left); t.b = r.range(1, std::max(1, left / t.u)); left -= t.u * t.b; } if (left && r.coin(0.7)) { t.v = r.range(1, left); t.d = 1; left -= t.v; } if (left) t.a = r.range(0, left); s.f[w - 1].push_back(t); } } return s; }
    template <class Q, class T> static Q pw(const T &x, int n) { Q y(1); for (int i = 0; i < n; ++i) y = y * Q(x); return y; }
    template <class Xv, class T> void operator()(const Xv &x, Xv &d, const T &t) const { for (int w = 0; w < N; ++w) { S y(0); for (const Term &q : f[w]) { S z(V(q.c)); z = z * pw<S>(S(V(t)), q.a); if (q.b) z = z * pw<S>(x[q.u - 1], q.b); if (q.d) z = z * x[q.v - 1]; y = y + z; } d[w] = y; } }
    // exact polynomials in s = t - t0
    typedef std::vector<X> P;
    static P mul(const P &a, const P &b) { P c(a.size() + b.size() - 1, X(0)); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }
    // X is real; the complex case runs two real weights: see main
    std::vector<P> exact(const std::vector<X> &x0, const X &t0) const { std::vector<P> p(N); P T{t0, X(1)}; for (int w = 0; w < N; ++w) { P y(1, X(0)); for (const Term &q : f[w]) { P z(1, X(q.c)); for (int i = 0; i < q.a; ++i) z = mul(z, T); for (int i = 0; i < q.b; ++i) z = mul(z, p[q.u - 1]); if (q.d) z = mul(z, p[q.v - 1]); if (z.size() > y.size()) y.resize(z.size(), X(0)); for (size_t i = 0; i < z.size(); ++i) y[i] += z[i]; } P I(y.size() + 1, X(0)); I[0] = x0[w]; for (size_t i = 0; i < y.size(); ++i) I[i + 1] = y[i] / X(double(i + 1)); p[w] = I; } return p; }
    static X at(const P &p, const X &s) { X y(0); for (size_t i = p.size(); i-- > 0;) y = y * s + p[i]; return y; }
};
struct C { Sys s; std::vector<double> x0; double t0, h; int which; uint64_t sd; std::vector<Sys::P> ex; };
static X toX(const V &v) { return X(v); }
#if PART == 3
static double re(const S &s) { return s.real(); } static double im(const S &s) { return s.imag(); }
#else
static V re(const S &s) { return s; } static V im(const S &) { return V(0); }
#endif
// compare with the exact solution at time t; big = size of numbers involved
static void cmp(const C &c, const St &x, const V &t, int p, const char *what, double f = 1) {
    for (int w = 0; w < std::min(p, int(N)); ++w) { X e = Sys::at(c.ex[w], toX(t) - X(c.t0)); double d = std::fabs(double(toX(re(x[w])) - e)), sc = 100; for (int k = 0; k <= w; ++k) sc = std::max(sc, std::fabs(double(Sys::at(c.ex[k], toX(t) - X(c.t0)))));
        double r = d / (EPS * sc * f); H::maxi(H::cat("round-offs method ", c.which), r); if (!(r < 5e2) || !(re(im(x[w])) == 0)) { H::violation(what, H::cat("component of weight ", w + 1, " (order ", p, ") is off by ", d, " at time ", double(t), ", round-off is ", EPS * sc)); throw H::Abort(); } }
    H::count("exact-components", std::min(p, int(N)));
}
static St start(const C &c) { St x(N); for (int i = 0; i < N; ++i) x[i] = S(V(c.x0[i])); return x; }
template <class T> void plain(T s, const C &c, int p) { St x = start(c), o(N); V t = V(c.t0), h = V(c.h); Rng q(c.sd); for (int i = 0; i < 12; ++i) { if (q.coin()) { s.do_step(c.s, x, t, o, h); x = o; } else s.do_step(c.s, x, t, h); t = V(c.t0) + V(i + 1) * h; cmp(c, x, t, p, "step"); } }
// full = false: the error of the lowest-order-plus-one weight must be there
template <class T> void witherr(T s, const C &c, int p, int pe) { St x = start(c), e(N); V t = V(c.t0), h = V(c.h); for (int i = 0; i < 8; ++i) { s.do_step(c.s, x, t, h, e); t = V(c.t0) + V(i + 1) * h; cmp(c, x, t, p, "step"); for (int w = 0; w < pe; ++w) { double r = std::fabs(double(toX(re(e[w])))) / (EPS * 100); H::maxi("round-offs of the error", r); HREQUIRE(r < 1e3, "error", "component ", w + 1, " error ", std::fabs(double(toX(re(e[w]))))); } double any = 0; for (int w = pe; w < N; ++w) any = std::max(any, std::fabs(double(toX(re(e[w]))))); if (any > 1e3 * EPS) H::count("error-nonzero"); } }
template <class T> void ctrl(T s, const C &c, int p) { St x = start(c); V t = V(c.t0), h = V(c.h); for (int i = 0; i < 12; ++i) { V told = t, hold = h; if (s.try_step(c.s, x, t, h) == ode::success) { HCHECK(t == told + hold, "time", double(t)); H::count("accepted"); cmp(c, x, t, p, "step"); } else { HCHECK(t == told, "time", double(t)); H::count("rejected"); } if (std::fabs(double(h)) > 2 * std::fabs(c.h)) h = c.h > 0 ? V(2 * std::fabs(c.h)) : V(-2 * std::fabs(c.h)); } }
template <class T> void dense(T s, const C &c, int p, int pd) { St x = start(c); Rng q(c.sd); s.initialize(x, V(c.t0), V(c.h)); for (int i = 0; i < 8; ++i) { auto r = s.do_step(c.s); cmp(c, s.current_state(), r.second, p, "dense-step"); St o(N); for (int k = 0; k < 3; ++k) { V t = r.first + V(std::ldexp(q.range(0, 64), -6)) * (r.second - r.first); s.calc_state(t, o); cmp(c, o, t, pd, "interpolated", 20); } if (std::fabs(double(s.current_time()) - c.t0) > 3) break; } }
struct Ob { const C *c; int p; const char *w; template <class T> void operator()(const St &x, const T &t) const { cmp(*c, x, t, p, w, 5); } };
#define RK(nm) ode::nm<St, V, St, V>
#define MS(nm, k) ode::nm<k, St, V, St, V>
template <class F> void run(const char *nm, int n, double hmax, F f) { static int id; ++id; H::group(nm, n, [&](Rng &r) { C c; c.which = id; c.s = Sys::make(r); c.t0 = r.dy(-1, 1, 6); c.h = r.dy(0.02, hmax, 8) * r.sign(); if (c.h == 0) c.h = 0.015625; c.sd = r.u64(); std::vector<X> x; for (int i = 0; i < N; ++i) { c.x0.push_back(r.dy(-1, 1, 8)); x.push_back(X(c.x0[i])); } c.ex = c.s.exact(x, X(c.t0)); H::describe(nm, " t0=", c.t0, " h=", c.h, " x0=", c.x0[0]); H::nontrivial(); f(c); }); }
int main(int argc, char **argv) {
    H::init(argc, argv, "vtype"); const int M = 40; V ea = V(1e-3), er = V(1e-3);
    run("euler", M, 0.25, [](const C &c) { plain(RK(euler)(), c, 1); });
    run("rk4", M, 0.25, [](const C &c) { plain(RK(runge_kutta4)(), c, 4); });
    run("rk4-classic", M, 0.25, [](const C &c) { plain(RK(runge_kutta4_classic)(), c, 4); });
    run("ck54", M, 0.25, [](const C &c) { plain(RK(runge_kutta_cash_karp54)(), c, 5); witherr(RK(runge_kutta_cash_karp54)(), c, 5, 4); });
    run("ck54-classic", M, 0.25, [](const C &c) { plain(RK(runge_kutta_cash_karp54_classic)(), c, 5); witherr(RK(runge_kutta_cash_karp54_classic)(), c, 5, 4); });
    run("dopri5", M, 0.25, [](const C &c) { plain(RK(runge_kutta_dopri5)(), c, 5); witherr(RK(runge_kutta_dopri5)(), c, 5, 4); });
    run("rkf78", M, 0.25, [](const C &c) { plain(RK(runge_kutta_fehlberg78)(), c, 8); witherr(RK(runge_kutta_fehlberg78)(), c, 8, 7); });
    run("midpoint", M, 0.25, [](const C &c) { plain(RK(modified_midpoint)(2 + int(c.sd % 4)), c, 2); });
    run("extrapolation4", M, 0.25, [](const C &c) { plain(MS(extrapolation_stepper, 4)(), c, 4); witherr(MS(extrapolation_stepper, 4)(), c, 4, 2); });
    run("extrapolation6", M, 0.25, [](const C &c) { plain(MS(extrapolation_stepper, 6)(), c, 6); witherr(MS(extrapolation_stepper, 6)(), c, 6, 4); });
    run("extrapolation8", M, 0.25, [](const C &c) { plain(MS(extrapolation_stepper, 8)(), c, 8); });
    run("ab1", M / 2, 0.2, [](const C &c) { plain(MS(adams_bashforth, 1)(), c, 1); });
    run("ab2", M / 2, 0.2, [](const C &c) { plain(MS(adams_bashforth, 2)(), c, 2); });
    run("ab3", M / 2, 0.2, [](const C &c) { plain(MS(adams_bashforth, 3)(), c, 3); });
    run("ab4", M / 2, 0.2, [](const C &c) { plain(MS(adams_bashforth, 4)(), c, 4); });
    run("ab5", M / 2, 0.2, [](const C &c) { plain(MS(adams_bashforth, 5)(), c, 5); });
    run("ab6", M / 2, 0.2, [](const C &c) { plain(MS(adams_bashforth, 6)(), c, 6); });
    run("ab7", M / 2, 0.2, [](const C &c) { plain(MS(adams_bashforth, 7)(), c, 7); });
    run("ab8", M / 2, 0.2, [](const C &c) { plain(MS(adams_bashforth, 8)(), c, 8); });
    run("abm2", M / 2, 0.2, [](const C &c) { plain(MS(adams_bashforth_moulton, 2)(), c, 2); });
    run("abm3", M / 2, 0.2, [](const C &c) { plain(MS(adams_bashforth_moulton, 3)(), c, 3); });
    run("abm4", M / 2, 0.2, [](const C &c) { plain(MS(adams_bashforth_moulton, 4)(), c, 4); });
#if PART != 3
    run("controlled-ck54", M, 0.25, [&](const C &c) { ctrl(ode::make_controlled(ea, er, RK(runge_kutta_cash_karp54)()), c, 5); });
    run("controlled-dopri5", M, 0.25, [&](const C &c) { ctrl(ode::make_controlled(ea, er, RK(runge_kutta_dopri5)()), c, 5); });
    run("controlled-rkf78", M, 0.25, [&](const C &c) { ctrl(ode::make_controlled(ea, er, RK(runge_kutta_fehlberg78)()), c, 8); });
    run("bulirsch-stoer", M, 0.25, [&](const C &c) { ctrl(RK(bulirsch_stoer)(ea, er), c, 4); });
    run("dense-dopri5", M, 0.25, [&](const C &c) { dense(ode::make_dense_output(ea, er, RK(runge_kutta_dopri5)()), c, 5, 4); });
    run("dense-euler", M, 0.25, [&](const C &c) { dense(ode::dense_output_runge_kutta<RK(euler)>(), c, 1, 1); });
    run("integrate", M, 0.25, [&](const C &c) { Rng q(c.sd); int n = q.range(3, 12); St x = start(c); V t1 = V(c.t0) + V(n) * V(c.h); ode::integrate_const(RK(runge_kutta4)(), c.s, x, V(c.t0), t1, V(c.h), Ob{&c, 4, "integrate-const"}); x = start(c); ode::integrate_adaptive(ode::make_controlled(ea, er, RK(runge_kutta_dopri5)()), c.s, x, V(c.t0), t1, V(c.h), Ob{&c, 5, "integrate-adaptive"}); cmp(c, x, t1, 5, "end", 5); x = start(c); ode::integrate_const(ode::make_dense_output(ea, er, RK(runge_kutta_dopri5)()), c.s, x, V(c.t0), t1, V(c.h), Ob{&c, 4, "integrate-const-dense"}); });
#endif
    return H::finish();
}
