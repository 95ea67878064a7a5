// C16: the same run with a given state type and with std::vector<double> must leave the same trace (states, errors, verdicts, step sizes, times, interpolants).
// PART 0: arrays, deques, lists; 1: ublas; 2: Eigen; 3: multi_array, GSL; 4: thrust; 5: vector-space types and scalars; 6: fusion; 7: units; 8: separate derivative and time types, other algebras/operations
#define BOOST_FUSION_INVOKE_MAX_ARITY 15
#define BOOST_RESULT_OF_NUM_ARGS 15
#include "sys.hpp"
#include <array>
#include <deque>
#include <list>
#if PART == 4
#include <thrust/host_vector.h>
#include <thrust/device_vector.h>
#endif
#include <boost/operators.hpp>
#include <boost/numeric/odeint/config.hpp>
#if PART == 1
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#elif PART == 2
#include <boost/numeric/odeint/algebra/algebra_dispatcher.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/util/resize.hpp>
#include <boost/numeric/odeint/external/eigen/eigen.hpp>
#elif PART == 3
#include <boost/numeric/odeint/algebra/multi_array_algebra.hpp>
#include <boost/numeric/odeint/util/multi_array_adaption.hpp>
#include <boost/numeric/odeint/external/gsl/gsl_wrapper.hpp>
#elif PART == 4
#include <boost/numeric/odeint/external/thrust/thrust.hpp>
#elif PART == 6 || PART == 7
#include <boost/fusion/container.hpp>
#include <boost/fusion/sequence.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra_dispatcher.hpp>
#if PART == 7
#include <boost/units/systems/si/length.hpp>
#include <boost/units/systems/si/time.hpp>
#include <boost/units/systems/si/velocity.hpp>
#include <boost/units/systems/si/acceleration.hpp>
#endif
#endif
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_iterator.hpp>
using H::Rng; namespace ode = boost::numeric::odeint; typedef std::vector<double> vec;
enum { PLAIN = 1, CTRL = 2, DENSE = 4, BS = 8, SYM = 16, INTG = 32, MULTI = 64, RK78 = 128, EXTRA = 256, CLASSIC = 512, MIDP = 1024, AABM = 2048, ALL = 0xfff };
struct Log { std::vector<double> v; std::vector<const char *> w; void put(const char *k, double x) { if (v.size() > 300000) throw H::Budget(); v.push_back(x); w.push_back(k); } template <class A, class X> void state(const X &x, int n, const char *k = "state") { for (int i = 0; i < n; ++i) put(k, A::get(x, i)); } };
template <class A> struct Sy { const T::Prob *p; template <class X, class D, class Tm> void operator()(const X &x, D &d, Tm t) const { vec a(p->n), b(p->n); for (int i = 0; i < p->n; ++i) a[i] = A::get(x, i); p->rhs<double>(a, b, A::tval(t)); for (int i = 0; i < p->n; ++i) A::set(d, i, b[i]); } };
// q' = f(p), p' = g(q)
template <class A> struct Sf { double c; template <class P, class D> void operator()(const P &p, D &d) const { for (int i = 0; i < A::n_; ++i) { double v = A::get(p, i); A::set(d, i, c * v + 0.2 * std::sin(v)); } } };
template <class A> struct Sg { double c; template <class Q, class D> void operator()(const Q &q, D &d) const { for (int i = 0; i < A::n_; ++i) A::set(d, i, -c * std::sin(A::get(q, i)) + 0.1 * A::get(q, (i + 1) % A::n_)); } };
template <class A> struct Sv { double c; template <class Q, class P, class D, class Tm> void operator()(const Q &q, const P &v, D &d, Tm t) const { for (int i = 0; i < A::n_; ++i) A::set(d, i, -c * std::sin(A::get(q, i)) - 0.1 * A::get(v, i) + 0.1 * std::cos(A::tval(t))); } };
template <class A> struct Ob { Log *L; int n; template <class X, class Tm> void operator()(const X &x, Tm t) const { L->put("observed-time", A::tval(t)); L->state<A>(x, n, "observed"); } };
struct Cfg { T::Prob p; vec x0; double t0, h, ea, er; int which; uint64_t sd; };
template <class A, class S> void plain(S s, const Cfg &c, Log &L) {
    Rng q(c.sd); auto x = A::make(c.x0); int n = c.p.n; Sy<A> sy{&c.p}; double t = c.t0; int k = q.range(3, 25);
    for (int i = 0; i < k; ++i) { double h = c.h; bool oop = q.coin(0.3); if constexpr (!std::is_same<typename A::S, double>::value) if (oop) { auto o = A::make(c.x0); s.do_step(sy, x, A::time(t), o, A::time(h)); A::assign(x, o); A::done(o); } if (!oop || std::is_same<typename A::S, double>::value) s.do_step(sy, x, A::time(t), A::time(h)); t += h; L.state<A>(x, n); } A::done(x);
}
template <class A, class S> void witherr(S s, const Cfg &c, Log &L) {
    Rng q(c.sd); auto x = A::make(c.x0), e = A::make(c.x0); int n = c.p.n; Sy<A> sy{&c.p}; double t = c.t0; for (int i = 0; i < 8; ++i) { s.do_step(sy, x, A::time(t), A::time(c.h), e); t += c.h; L.state<A>(x, n); L.state<A>(e, n, "error"); } A::done(x); A::done(e);
}
template <class A, class S> void ctrl(S s, const Cfg &c, Log &L) {
    Rng q(c.sd); auto x = A::make(c.x0); int n = c.p.n; Sy<A> sy{&c.p}; auto t = A::time(c.t0), dt = A::time(c.h); for (int i = 0; i < 25; ++i) { bool ok; bool oop = q.coin(0.3) && !std::is_same<typename A::S, double>::value; if (oop) { auto o = A::make(c.x0); ok = s.try_step(sy, x, t, o, dt) == ode::success; if (ok) A::assign(x, o); A::done(o); } else ok = s.try_step(sy, x, t, dt) == ode::success; H::count(ok ? "accepted" : "rejected"); L.put("verdict", ok); L.put("time", A::tval(t)); L.put("proposed-step", A::tval(dt)); L.state<A>(x, n); } A::done(x);
}
template <class A, class S> void dense(S s, const Cfg &c, Log &L) {
    Rng q(c.sd); auto x = A::make(c.x0), o = A::make(c.x0); int n = c.p.n; Sy<A> sy{&c.p}; s.initialize(x, A::time(c.t0), A::time(c.h)); for (int i = 0; i < 10; ++i) { auto pr = s.do_step(sy); L.put("interval-begin", A::tval(pr.first)); L.put("interval-end", A::tval(pr.second)); L.put("next-step", A::tval(s.current_time_step())); L.state<A>(s.current_state(), n); for (int k = 0; k < 2; ++k) { s.calc_state(pr.first + q.u01() * (pr.second - pr.first), o); L.state<A>(o, n, "interpolated"); } } A::done(x); A::done(o);
}
template <class A, class S> void sympl(S s, const Cfg &c, Log &L) { auto q = A::make(c.x0), p = A::make(c.x0); auto pr = std::make_pair(q, p); A::n_ = c.p.n; double t = c.t0; for (int i = 0; i < 20; ++i) { s.do_step(std::make_pair(Sf<A>{0.9}, Sg<A>{1.1}), pr, A::time(t), A::time(c.h)); t += c.h; L.state<A>(pr.first, c.p.n); L.state<A>(pr.second, c.p.n); } }
template <class A, class S> void verlet(S s, const Cfg &c, Log &L) { auto q = A::make(c.x0), p = A::make(c.x0); auto pr = std::make_pair(q, p); A::n_ = c.p.n; double t = c.t0; for (int i = 0; i < 20; ++i) { s.do_step(Sv<A>{1.1}, pr, A::time(t), A::time(c.h)); t += c.h; L.state<A>(pr.first, c.p.n); L.state<A>(pr.second, c.p.n); } }
#define RK(nm) ode::nm<typename A::S, double, typename A::D, typename A::Tm A_EXTRA>
#define MS(nm, k) ode::nm<k, typename A::S, double, typename A::D, typename A::Tm A_EXTRA>
#ifndef A_EXTRA
#define A_EXTRA
#endif
enum { NW = 29 };
static constexpr int NEED[NW] = {PLAIN, PLAIN, CLASSIC, PLAIN, CLASSIC, PLAIN, RK78, MIDP, MULTI, MULTI, EXTRA, PLAIN, PLAIN, RK78, CLASSIC, CTRL, CTRL, CTRL | RK78, BS, DENSE, BS | DENSE, DENSE, INTG, INTG | CTRL, INTG | DENSE, SYM, SYM, AABM, AABM | CTRL};
template <class A> void run(const Cfg &c, Log &L) {
    const double ea = c.ea, er = c.er; (void)ea; (void)er;
#define W(k, ...) if constexpr ((A::caps & NEED[k]) == NEED[k]) { if (c.which == k) { __VA_ARGS__; return; } }
    W(0, plain<A>(RK(euler)(), c, L)) W(1, plain<A>(RK(runge_kutta4)(), c, L)) W(2, plain<A>(RK(runge_kutta4_classic)(), c, L)) W(3, plain<A>(RK(runge_kutta_cash_karp54)(), c, L)) W(4, plain<A>(RK(runge_kutta_cash_karp54_classic)(), c, L)) W(5, plain<A>(RK(runge_kutta_dopri5)(), c, L)) W(6, plain<A>(RK(runge_kutta_fehlberg78)(), c, L)) W(7, plain<A>(RK(modified_midpoint)(6), c, L))
    W(8, plain<A>(MS(adams_bashforth, 4)(), c, L)) W(9, plain<A>(MS(adams_bashforth_moulton, 3)(), c, L)) W(10, plain<A>(MS(extrapolation_stepper, 6)(), c, L))
    W(11, witherr<A>(RK(runge_kutta_cash_karp54)(), c, L)) W(12, witherr<A>(RK(runge_kutta_dopri5)(), c, L)) W(13, witherr<A>(RK(runge_kutta_fehlberg78)(), c, L)) W(14, witherr<A>(RK(runge_kutta_cash_karp54_classic)(), c, L))
    W(15, ctrl<A>(ode::make_controlled(ea, er, RK(runge_kutta_cash_karp54)()), c, L)) W(16, ctrl<A>(ode::make_controlled(ea, er, RK(runge_kutta_dopri5)()), c, L)) W(17, ctrl<A>(ode::make_controlled(ea, er, RK(runge_kutta_fehlberg78)()), c, L)) W(18, ctrl<A>(RK(bulirsch_stoer)(ea, er, 1, 1), c, L))
    W(19, dense<A>(ode::make_dense_output(ea, er, RK(runge_kutta_dopri5)()), c, L)) W(20, dense<A>(RK(bulirsch_stoer_dense_out)(ea, er, 1, 1), c, L)) W(21, dense<A>(ode::dense_output_runge_kutta<RK(euler)>(), c, L))
    auto t0 = A::time(c.t0), t1 = A::time(c.t0 + 11.3 * c.h), dt = A::time(c.h); Ob<A> ob{&L, c.p.n}; Sy<A> sy{&c.p};
    W(22, auto x = A::make(c.x0); L.put("steps", ode::integrate_const(RK(runge_kutta4)(), sy, x, t0, t1, dt, ob)); ode::integrate_n_steps(RK(runge_kutta_dopri5)(), sy, x, t0, dt, 7, ob); L.state<A>(x, c.p.n); A::done(x))
    W(23, auto x = A::make(c.x0); L.put("steps", ode::integrate_adaptive(ode::make_controlled(ea, er, RK(runge_kutta_cash_karp54)()), sy, x, t0, t1, dt, ob)); L.put("steps", ode::integrate_const(ode::make_controlled(ea, er, RK(runge_kutta_dopri5)()), sy, x, t0, t1, dt, ob)); L.state<A>(x, c.p.n); A::done(x))
    W(24, auto x = A::make(c.x0); L.put("steps", ode::integrate_const(ode::make_dense_output(ea, er, RK(runge_kutta_dopri5)()), sy, x, t0, t1, dt, ob)); std::vector<decltype(t0)> ts; for (int i = 0; i < 5; ++i) ts.push_back(A::time(c.t0 + i * 1.7 * c.h)); L.put("steps", ode::integrate_times(ode::make_dense_output(ea, er, RK(runge_kutta_dopri5)()), sy, x, ts.begin(), ts.end(), dt, ob)); L.state<A>(x, c.p.n); A::done(x))
    W(25, sympl<A>(ode::symplectic_rkn_sb3a_mclachlan<typename A::S, typename A::S, double, typename A::D, typename A::D, typename A::Tm A_EXTRA>(), c, L)) W(26, verlet<A>(ode::velocity_verlet<typename A::S, typename A::S, double, typename A::D, typename A::Tm, typename A::Tm A_EXTRA>(), c, L))
    W(27, plain<A>(MS(adaptive_adams_bashforth_moulton, 4)(), c, L)) W(28, typedef MS(adaptive_adams_bashforth_moulton, 3) B; ctrl<A>(ode::controlled_adams_bashforth_moulton<B>(), c, L))
}
static void same(const Log &f, const Log &b, double tol) {
    size_t m = std::min(f.v.size(), b.v.size()); double big = 1; HREQUIRE(m > 0, "no-trace", "empty");
    for (size_t i = 0; i < m; ++i) { big = std::max(big, std::fabs(f.v[i])); double d = f.v[i] == b.v[i] ? 0 : std::fabs(f.v[i] - b.v[i]); if (!(d <= tol * big)) { H::violation(f.w[i], H::cat("entry ", i, " of ", f.v.size(), ": reference ", f.w[i], " ", f.v[i], ", with this state type ", b.v[i])); throw H::Abort(); } H::maxi("deviation", d / big); }
    HREQUIRE(f.v.size() == b.v.size(), "length", f.v.size(), " versus ", b.v.size()); H::count("compared-values", long(m));
}
// default adaptor behaviour
template <class S_, class D_ = S_, class Tm_ = double> struct Ad { typedef S_ S; typedef D_ D; typedef Tm_ Tm; static Tm time(double t) { return Tm(t); } static double tval(Tm t) { return double(t); } static S make(const vec &v) { S x(v.size()); std::copy(v.begin(), v.end(), std::begin(x)); return x; } template <class X> static double get(const X &x, int i) { return *std::next(std::begin(x), i); } template <class X> static void set(X &x, int i, double v) { *std::next(std::begin(x), i) = v; } static void assign(S &a, const S &b) { a = b; } static void done(S &) {} enum { caps = ALL, fixed = 0 }; static int n_; };
template <class S_, class D_, class Tm_> int Ad<S_, D_, Tm_>::n_ = 1;
struct Ref : Ad<vec> {}; 
template <class A, class R = Ref> void check(const char *nm, int reps, double tol = 1e-10) {
    H::group(nm, reps, [&](Rng &r) { Cfg c; do c.which = r.range(0, NW - 1); while ((A::caps & NEED[c.which]) != NEED[c.which]); int n = A::fixed ? int(A::fixed) : r.range(1, 7); c.p = T::Prob::make(r, n, 2.0, 0.5); c.t0 = r.uni(-3, 3); c.h = r.logu(0.02, 0.4); c.ea = r.logu(1e-9, 1e-3); c.er = r.logu(1e-9, 1e-3); c.sd = r.u64(); c.x0 = c.p.exact(c.t0); for (auto &v : c.x0) v += r.uni(-0.5, 0.5); if (c.which >= 15 && c.which != 21) c.h *= r.logu(1, 8); if (c.which >= 22 && c.which != 28) c.h = std::min(c.h, c.which == 23 || c.which == 24 ? 0.5 : 0.3);
        H::describe(nm, " method=", c.which, " dim=", n, " t0=", c.t0, " h=", c.h, " eps=", c.ea, ",", c.er); H::nontrivial(); H::count(H::cat("method-", c.which)); Log a, b; run<R>(c, a); run<A>(c, b); bool adaptive = (c.which >= 15 && c.which <= 20) || c.which == 23 || c.which == 24 || c.which == 28; same(a, b, adaptive ? 1e-5 : tol); /* step size control amplifies round-off */ });
}
#if PART == 0 || PART == 8
namespace boost { namespace numeric { namespace odeint { // as documented for containers other than std::vector
template <class V, class A> struct is_resizeable<std::deque<V, A>> { typedef boost::true_type type; static const bool value = true; };
template <class V, class A> struct is_resizeable<std::list<V, A>> { typedef boost::true_type type; static const bool value = true; };
} } }
#endif
#if PART == 0
template <size_t N> struct SA : Ad<std::array<double, N>> { typedef std::array<double, N> S; static S make(const vec &v) { S x; std::copy(v.begin(), v.end(), x.begin()); return x; } enum { caps = ALL, fixed = N }; };
template <size_t N> struct BA : Ad<boost::array<double, N>> { typedef boost::array<double, N> S; static S make(const vec &v) { S x; std::copy(v.begin(), v.end(), x.begin()); return x; } enum { caps = ALL, fixed = N }; };
struct Dq : Ad<std::deque<double>> {}; struct Ls : Ad<std::list<double>> { };
static void all() { check<SA<3>>("std-array", 250); check<SA<1>>("std-array-1", 80); check<BA<4>>("boost-array", 250); check<Dq>("deque", 250); check<Ls>("list", 250); }
#elif PART == 1
namespace ub = boost::numeric::ublas; struct Uv : Ad<ub::vector<double>> { enum { caps = ALL & ~AABM }; };
struct Um : Ad<ub::matrix<double>> { typedef ub::matrix<double> S; static S make(const vec &v) { S x(v.size(), 1); for (size_t i = 0; i < v.size(); ++i) x(i, 0) = v[i]; if (v.size() == 6) { S y(2, 3); for (int i = 0; i < 6; ++i) y(i / 3, i % 3) = v[i]; return y; } if (v.size() == 4) { S y(2, 2); for (int i = 0; i < 4; ++i) y(i / 2, i % 2) = v[i]; return y; } return x; } static double get(const S &x, int i) { return x(i / x.size2(), i % x.size2()); } static void set(S &x, int i, double v) { x(i / x.size2(), i % x.size2()) = v; } enum { caps = ALL & ~AABM }; };
static void all() { check<Uv>("ublas-vector", 400); check<Um>("ublas-matrix", 400); }
#elif PART == 2
struct Ev : Ad<Eigen::VectorXd> { typedef Eigen::VectorXd S; static S make(const vec &v) { S x(v.size()); for (size_t i = 0; i < v.size(); ++i) x[i] = v[i]; return x; } static double get(const S &x, int i) { return x[i]; } static void set(S &x, int i, double v) { x[i] = v; } enum { caps = ALL & ~AABM }; };
struct Ef : Ad<Eigen::Vector3d> { typedef Eigen::Vector3d S; static S make(const vec &v) { return S(v[0], v[1], v[2]); } static double get(const S &x, int i) { return x[i]; } static void set(S &x, int i, double v) { x[i] = v; } enum { caps = ALL & ~AABM, fixed = 3 }; };
struct Em : Ad<Eigen::MatrixXd> { typedef Eigen::MatrixXd S; static S make(const vec &v) { int c = v.size() % 3 == 0 ? 3 : v.size() % 2 == 0 ? 2 : 1; S x(v.size() / c, c); for (size_t i = 0; i < v.size(); ++i) x(i / c, i % c) = v[i]; return x; } static double get(const S &x, int i) { return x(i / x.cols(), i % x.cols()); } static void set(S &x, int i, double v) { x(i / x.cols(), i % x.cols()) = v; } enum { caps = ALL & ~AABM }; };
struct Ea : Ad<Eigen::ArrayXd> { typedef Eigen::ArrayXd S; static S make(const vec &v) { S x(v.size()); for (size_t i = 0; i < v.size(); ++i) x[i] = v[i]; return x; } static double get(const S &x, int i) { return x[i]; } static void set(S &x, int i, double v) { x[i] = v; } enum { caps = PLAIN | MULTI | RK78 | CLASSIC | SYM | MIDP | EXTRA }; };
static void all() { check<Ev>("eigen-vector", 300); check<Ef>("eigen-fixed", 300); check<Em>("eigen-matrix", 300); check<Ea>("eigen-array", 150); }
#elif PART == 3
struct Ma : Ad<boost::multi_array<double, 2>> { typedef boost::multi_array<double, 2> S; static S make(const vec &v) { size_t c = v.size() % 3 == 0 ? 3 : v.size() % 2 == 0 ? 2 : 1; S x(boost::extents[v.size() / c][c]); std::copy(v.begin(), v.end(), x.data()); if (c == 2) { boost::array<int, 2> o = {{-1, 2}}; x.reindex(o); } return x; } static double get(const S &x, int i) { int c = x.shape()[1]; return x[x.index_bases()[0] + i / c][x.index_bases()[1] + i % c]; } static void set(S &x, int i, double v) { int c = x.shape()[1]; x[x.index_bases()[0] + i / c][x.index_bases()[1] + i % c] = v; } enum { caps = ALL & ~AABM }; };
struct Gs : Ad<gsl_vector *> { typedef gsl_vector *S; static S make(const vec &v) { S x = gsl_vector_alloc(v.size()); for (size_t i = 0; i < v.size(); ++i) gsl_vector_set(x, i, v[i]); return x; } static double get(const gsl_vector *x, int i) { return gsl_vector_get(x, i); } static void set(gsl_vector *x, int i, double v) { gsl_vector_set(x, i, v); } static void assign(S &a, S b) { gsl_vector_memcpy(a, b); } static void done(S &x) { gsl_vector_free(x); } enum { caps = PLAIN | RK78 | CLASSIC | MULTI }; };
static void all() { check<Ma>("multi-array", 400); check<Gs>("gsl", 300); }
#elif PART == 4
struct Th : Ad<thrust::host_vector<double>> { typedef thrust::host_vector<double> S; static S make(const vec &v) { return S(v.begin(), v.end()); } static double get(const S &x, int i) { return x[i]; } static void set(S &x, int i, double v) { x[i] = v; } enum { caps = PLAIN | CTRL | DENSE | INTG | MIDP | MULTI }; };
struct Td : Ad<thrust::device_vector<double>> { typedef thrust::device_vector<double> S; static S make(const vec &v) { return S(v.begin(), v.end()); } static double get(const S &x, int i) { return x[i]; } static void set(S &x, int i, double v) { x[i] = v; } enum { caps = PLAIN | CTRL | DENSE | INTG | MIDP | MULTI }; };
static void all() { check<Th>("thrust-host", 300); check<Td>("thrust-device", 300); }
#elif PART == 5
struct P3 : boost::additive1<P3, boost::additive2<P3, double, boost::multiplicative2<P3, double>>> { double x, y, z; P3() : x(0), y(0), z(0) {} P3(double v) : x(v), y(v), z(v) {} P3(double a, double b, double c) : x(a), y(b), z(c) {} P3 &operator+=(const P3 &p) { x += p.x; y += p.y; z += p.z; return *this; } P3 &operator-=(const P3 &p) { x -= p.x; y -= p.y; z -= p.z; return *this; } P3 &operator+=(double v) { x += v; y += v; z += v; return *this; } P3 &operator-=(double v) { x -= v; y -= v; z -= v; return *this; } P3 &operator*=(double a) { x *= a; y *= a; z *= a; return *this; } P3 &operator/=(double a) { x /= a; y /= a; z /= a; return *this; } };
inline P3 operator/(const P3 &a, const P3 &b) { return P3(a.x / b.x, a.y / b.y, a.z / b.z); }
inline P3 abs(const P3 &p) { return P3(std::fabs(p.x), std::fabs(p.y), std::fabs(p.z)); }
namespace boost { namespace numeric { namespace odeint { template <> struct vector_space_norm_inf<P3> { typedef double result_type; double operator()(const P3 &p) const { return std::max(std::max(std::fabs(p.x), std::fabs(p.y)), std::fabs(p.z)); } }; template <> struct algebra_dispatcher<P3> { typedef vector_space_algebra algebra_type; }; } } }
struct Pt : Ad<P3> { typedef P3 S; static S make(const vec &v) { return P3(v[0], v[1], v[2]); } static double get(const S &x, int i) { return i == 0 ? x.x : i == 1 ? x.y : x.z; } static void set(S &x, int i, double v) { (i == 0 ? x.x : i == 1 ? x.y : x.z) = v; } enum { caps = ALL & ~AABM, fixed = 3 }; };
struct Sc : Ad<double> { typedef double S; static S make(const vec &v) { return v[0]; } static double get(const S &x, int) { return x; } static void set(S &x, int, double v) { x = v; } enum { caps = ALL & ~AABM, fixed = 1 }; };
struct Vp : Ad<std::vector<P3>> { typedef std::vector<P3> S; static S make(const vec &v) { S x; for (size_t i = 0; i + 2 < v.size(); i += 3) x.push_back(P3(v[i], v[i + 1], v[i + 2])); return x; } static double get(const S &x, int i) { return Pt::get(x[i / 3], i % 3); } static void set(S &x, int i, double v) { Pt::set(x[i / 3], i % 3, v); } enum { caps = PLAIN | RK78 | CLASSIC | MULTI | SYM | MIDP | EXTRA, fixed = 6 }; };
static void all() { check<Pt>("user-point", 400); check<Sc>("scalar", 400); check<Vp>("vector-of-points", 200); }
#elif PART == 6
namespace fus = boost::fusion;
struct Fu : Ad<fus::vector<double, double>> { typedef fus::vector<double, double> S; static S make(const vec &v) { return S(v[0], v[1]); } static double get(const S &x, int i) { return i ? fus::at_c<1>(x) : fus::at_c<0>(x); } static void set(S &x, int i, double v) { (i ? fus::at_c<1>(x) : fus::at_c<0>(x)) = v; } enum { caps = PLAIN | CTRL | DENSE | INTG | MULTI, fixed = 2 }; };
static void all() { check<Fu>("fusion", 300); }
#elif PART == 7
namespace fus = boost::fusion; namespace un = boost::units; namespace si = boost::units::si;
typedef un::quantity<si::time, double> tq; typedef un::quantity<si::length, double> lq; typedef un::quantity<si::velocity, double> vq; typedef un::quantity<si::acceleration, double> aq; typedef fus::vector<lq, vq> US; typedef fus::vector<vq, aq> UD;
struct Un : Ad<US, UD, tq> { typedef US S; static tq time(double t) { return t * si::second; } static double tval(tq t) { return t.value(); } static S make(const vec &v) { return S(v[0] * si::meter, v[1] * si::meter_per_second); } template <class X> static double get(const X &x, int i) { return i ? fus::at_c<1>(x).value() : fus::at_c<0>(x).value(); } template <class X> static void set(X &x, int i, double v) { typedef typename fus::result_of::value_at_c<X, 0>::type E0; typedef typename fus::result_of::value_at_c<X, 1>::type E1; if (i) fus::at_c<1>(x) = E1::from_value(v); else fus::at_c<0>(x) = E0::from_value(v); } enum { caps = PLAIN | CTRL | DENSE | INTG, fixed = 2 }; };
static void all() { check<Un>("units", 300); }
#elif PART == 8
struct S1 : Ad<vec, std::deque<double>> { enum { caps = ALL & ~(AABM | SYM) }; }; 
struct S2 : Ad<std::deque<double>, vec, double> { enum { caps = ALL & ~(AABM | SYM) }; }; 
enum { FIXED = PLAIN | RK78 | CLASSIC | EXTRA }; // wider types: no step size control, whose decisions amplify the difference of the round-off
struct S3 : Ad<std::vector<double>, std::vector<long double>, long double> { enum { caps = FIXED }; };
struct S4 : Ad<std::vector<long double>, std::deque<double>, double> { enum { caps = FIXED }; };
static void all() { check<S1>("vector-deque", 300); check<S2>("deque-vector", 300); check<S3>("vector-longdouble-deriv", 200, 1e-9); check<S4>("longdouble-deque", 200, 1e-9); }
#endif
int main(int c, char **v) { H::init(c, v, "types"); all(); return H::finish(); }
