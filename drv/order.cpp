// C24: measured convergence orders against the declared ones (and the literature). PART 0: explicit steppers in long double,
// 1: multistep, symplectic, implicit and generic steppers, 2: multiprecision, other algebras, traits
#include "zoo.hpp"
#include "tab.hpp"
#include <array>
#include <boost/numeric/odeint/stepper/adams_moulton.hpp>
#include <boost/numeric/odeint/stepper/explicit_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/explicit_error_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
using namespace Z; using H::Rng; typedef long double LD; typedef std::vector<LD> lvec;
template <class V> LD ld(const V &v) { return static_cast<LD>(v); }
enum { NP = PART == 2 ? 2 : 6 };
struct Setup { std::vector<T::Prob> p; std::vector<double> t0; double len; };
static Setup setup(Rng &r, int n, double len, double wmax = 2.0) { Setup s; for (int i = 0; i < NP; ++i) { s.p.push_back(T::Prob::make(r, n, wmax, 0.4)); s.t0.push_back(r.dy(-4, 4, 3)); } s.len = r.sign() * len; return s; }
// traj(problem, t0, dt, steps) -> largest error on the grid; levels double the number of steps
template <class F> void measure(const std::string &nm, const Setup &s, int n0, int levels, double lit, F traj, double lo = 0.4, double hi = 0.4) {
    std::vector<LD> e; int n = n0; for (int k = 0; k < levels; ++k, n *= 2) { LD sum = 0; for (int i = 0; i < NP; ++i) { LD v = traj(s.p[i], s.t0[i], s.len / n, n); if (!(v < 1e300L)) v = INFINITY; sum += v; } e.push_back(sum); }
    LD p = std::log2(e[levels - 2] / e[levels - 1]); H::maxi("order-deficit-" + nm, double(lit - p)); H::maxi("order-excess-" + nm, double(p - lit)); H::count("convergence-studies"); H::count("trajectories", NP * levels);
    std::ostringstream o; for (LD v : e) o << " " << double(v); HCHECK(p >= lit - lo && p <= lit + hi, "measured-order", nm, ": measured order ", double(p), ", declared ", lit, "; errors with halved steps:", o.str());
}
template <class A> auto fit(A &x, int n) -> decltype(x.resize(n)) { return x.resize(n); }
template <class V, size_t N> void fit(std::array<V, N> &, int) {}
template <class St> St mkst(const T::Prob &p, double t0) { typedef typename std::decay<decltype(std::declval<St>()[0])>::type V; St x; fit(x, p.n); std::vector<V> e = p.exact(V(t0)); for (int i = 0; i < p.n; ++i) x[i] = e[i]; return x; }
template <class V, class St> LD err(const T::Prob &p, const St &x, V t) { LD m = 0; for (int i = 0; i < p.n; ++i) { LD d = ld(V(x[i] - p.ex<V>(i, t))); if (d < 0) d = -d; m = std::max(m, d); } return m; }
// plain explicit steppers
template <class S, class St, class V> LD run(const T::Prob &p, double t0, double dt, int n, int mid = 0) {
    (void)mid; S s; T::Log l; T::Sys sy(p, l); St x = mkst<St>(p, t0); V t(t0), h(dt); LD m = 0; for (int i = 0; i < n; ++i) { s.do_step(sy, x, t, h); t = V(t0) + V(i + 1) * h; m = std::max(m, err<V>(p, x, t)); } return m;
}
template <class S, class St, class V> void expl(const std::string &nm, int declared, double lit, int n0, int levels = 3, int reps = 3, double len = 2) {
    H::group(nm, reps, [&](Rng &r) { int n = 3; Setup s = setup(r, n, len); H::describe(nm, " t0=", s.t0[0], " len=", s.len); H::nontrivial(); HCHECK(S::order_value == declared && S().order() == declared, "declared-order", "declares ", S().order()); measure(nm, s, n0, levels, lit, [](const T::Prob &p, double t0, double dt, int k) { return run<S, St, V>(p, t0, dt, k); }); });
}
// error estimates: local error estimate is O(h^(error_order+1)); the state is that of the higher order
template <class S, class St, class V> void embedded(const std::string &nm, int so, int eo, int n0) {
    H::group(nm + "-error", PART == 2 ? 1 : 3, [&](Rng &r) { Setup s = setup(r, 3, PART == 2 ? 1e-2 : 1); H::describe(nm, " t0=", s.t0[0], " len=", s.len); H::nontrivial(); HCHECK(S().stepper_order() == so && S().error_order() == eo, "declared-order", "declares ", S().stepper_order(), "(", S().error_order(), ")");
        measure(nm + "-error", s, n0, 3, eo + 1, [](const T::Prob &p, double t0, double dt, int k) { S q; T::Log l; T::Sys sy(p, l); LD m = 0; for (int i = 0; i < k; i += k / 8 < 1 ? 1 : k / 8) { V t = V(t0) + V(i) * V(dt); St x = mkst<St>(p, double(t)), e = x; S().do_step(sy, x, t, V(dt), e); for (int j = 0; j < p.n; ++j) { LD d = ld(e[j]); m = std::max(m, d < 0 ? -d : d); } } return m; }, 0.25, 0.35);
        // the estimate is asymptotically the error of the lower order solution: error of (x - err) has the same size
        for (int i = 0; i < NP && i < 3; ++i) { V h = V(std::fabs(s.len) / n0 / 16); S q; T::Log l; T::Sys sy(s.p[i], l); St x = mkst<St>(s.p[i], s.t0[i]), e = x; q.do_step(sy, x, V(s.t0[i]), h, e); St lo = x; for (int j = 0; j < 3; ++j) lo[j] = x[j] - e[j]; LD elow = err<V>(s.p[i], lo, V(s.t0[i]) + h), ehigh = err<V>(s.p[i], x, V(s.t0[i]) + h); if (elow > 1e5L * ld(std::numeric_limits<V>::epsilon())) HCHECK(ehigh < 0.5L * elow, "error-sign", "state minus error estimate is not less accurate than the state: ", double(elow), " vs ", double(ehigh)); } });
}
#define EX(nm, S, so, eo, n0) expl<S, lvec, LD>(nm, so, so, n0); embedded<S, lvec, LD>(nm, so, eo, n0)

template <class S, class Cat, class Base> void cat(const char *nm) { H::group(std::string("category-") + nm, 1, [&](Rng &) { H::describe(nm); H::nontrivial(); HCHECK((std::is_same<typename S::stepper_category, Cat>::value), "category", ""); HCHECK((std::is_same<typename ode::base_tag<typename S::stepper_category>::type, Base>::value), "base-category", ""); }); }
#if PART == 1
template <class S, class St, class V, class Init> LD runi(const T::Prob &p, double t0, double dt, int n) {
    S s; T::Log l; T::Sys sy(p, l); St x = mkst<St>(p, t0); V t(t0), h(dt); LD m = 0; s.initialize(Init(), sy, x, t, h); int i0 = int(std::floor(double((t - V(t0)) / h) + 0.5)); for (int i = i0; i < n; ++i) { t = V(t0) + V(i) * h; s.do_step(sy, x, t, h); m = std::max(m, err<V>(p, x, V(t0) + V(i + 1) * h)); } return m;
}
template <int K> void multistep() { typedef ode::runge_kutta_fehlberg78<lvec, LD> I; typedef ode::adams_bashforth<K, lvec, LD> A; typedef ode::adams_bashforth_moulton<K, lvec, LD> M;
    std::string a = H::cat("ab", K), b = H::cat("abm", K);
    H::group(a, 3, [&](Rng &r) { Setup s = setup(r, 3, 2, 1.2); H::describe(a, " t0=", s.t0[0], " len=", s.len); H::nontrivial(); HCHECK(A::order_value == K && A().order() == K, "declared-order", A().order()); measure(a, s, K > 6 ? 40 : 64, 3, K, [](const T::Prob &p, double t0, double dt, int n) { return runi<A, lvec, LD, I>(p, t0, dt, n); }, 0.3, 0.4); });
    // predictor of order K with a corrector of order K+1: at least order K, at most K+1
    H::group(b, 3, [&](Rng &r) { Setup s = setup(r, 3, 2, 1.2); H::describe(b, " t0=", s.t0[0], " len=", s.len); H::nontrivial(); HCHECK(M::order_value == K && M().order() == K, "declared-order", M().order()); measure(b, s, K > 6 ? 32 : 64, 3, K, [](const T::Prob &p, double t0, double dt, int n) { return runi<M, lvec, LD, I>(p, t0, dt, n); }, 0.35, 0.5); });
}
// q' = f(p), p' = -g(q): nonlinear oscillators, reference by fine integration of the same system with a classical 4th order loop
struct F2 { void operator()(const lvec &p, lvec &d) const { for (size_t i = 0; i < p.size(); ++i) d[i] = p[i] + 0.3L * std::sin(p[i]); } };
struct G2 { std::vector<double> w; void operator()(const lvec &q, lvec &d) const { for (size_t i = 0; i < q.size(); ++i) d[i] = -LD(w[i]) * std::sin(q[i]) - 0.2L * q[(i + 1) % q.size()]; } };
static void refpq(const G2 &g, lvec &q, lvec &p, LD h, int n) { F2 f; size_t m = q.size(); lvec a(m), b(m), k[4], l[4]; for (int i = 0; i < n; ++i) { for (int s = 0; s < 4; ++s) { k[s].resize(m); l[s].resize(m); LD c = s == 0 ? 0 : s == 3 ? h : h / 2; for (size_t j = 0; j < m; ++j) { a[j] = q[j] + (s ? c * k[s - 1][j] : 0); b[j] = p[j] + (s ? c * l[s - 1][j] : 0); } f(b, k[s]); g(a, l[s]); } for (size_t j = 0; j < m; ++j) { q[j] += h / 6 * (k[0][j] + 2 * k[1][j] + 2 * k[2][j] + k[3][j]); p[j] += h / 6 * (l[0][j] + 2 * l[1][j] + 2 * l[2][j] + l[3][j]); } } }
static ode::explicit_generic_rk<3, 3, lvec, LD>::coef_a_type heun_a() { boost::array<LD, 1> a1 = {{1 / 3.0L}}; boost::array<LD, 2> a2 = {{0, 2 / 3.0L}}; return boost::fusion::make_vector(a1, a2); }
template <class S> void sympl(const char *nm, int declared, double lit, int n0) {
    H::group(nm, 3, [&](Rng &r) { double len = r.sign() * 2; H::describe(nm, " len=", len); H::nontrivial(); HCHECK(S::order_value == declared && S().order() == declared, "declared-order", S().order()); LD e[3] = {0, 0, 0};
        for (int c = 0; c < NP; ++c) { int m = 3; G2 g; lvec q0(m), p0(m); for (int i = 0; i < m; ++i) { g.w.push_back(r.uni(0.5, 2)); q0[i] = r.uni(-1.5, 1.5); p0[i] = r.uni(-1, 1); } for (int k = 0; k < 3; ++k) { int n = n0 << k; LD h = LD(len) / n; S s; auto x = std::make_pair(q0, p0); lvec q = q0, p = p0; LD mx = 0; for (int i = 0; i < n; ++i) { s.do_step(std::make_pair(F2(), g), x, i * h, h); refpq(g, q, p, h / 16, 16); for (int j = 0; j < m; ++j) mx = std::max(mx, std::max(std::fabs(q[j] - x.first[j]), std::fabs(p[j] - x.second[j]))); } e[k] += mx; } }
        LD p = std::log2(e[1] / e[2]); H::maxi(std::string("order-deficit-") + nm, double(lit - p)); H::maxi(std::string("order-excess-") + nm, double(p - lit)); H::count("convergence-studies"); HCHECK(p >= lit - 0.2 && p <= lit + 0.3, "measured-order", nm, ": measured order ", double(p), " expected ", lit); });
}
struct Jld { const T::Prob *p; typedef ub::vector<LD> U; typedef ub::matrix<LD> M; void operator()(const U &x, M &J, LD t, U &d) const { p->jac<LD>(x, J, t, d); } void operator()(const uvec &x, umat &J, double t) const { uvec d(x.size()); p->jac<double>(x, J, t, d); } };

#endif
#if PART == 2
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <Eigen/Core>
#include <boost/numeric/odeint/external/eigen/eigen.hpp>
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<50>, boost::multiprecision::et_off> MP; typedef std::vector<MP> mvec; typedef std::array<LD, 3> larr; typedef Eigen::Matrix<LD, 3, 1> evec;
#endif
int main(int c, char **v) {
    H::init(c, v, "order");
#if PART == 0
    expl<ode::euler<lvec, LD>, lvec, LD>("euler", 1, 1, 64, 4); expl<ode::runge_kutta4<lvec, LD>, lvec, LD>("rk4", 4, 4, 16, 3); expl<ode::runge_kutta4_classic<lvec, LD>, lvec, LD>("rk4-classic", 4, 4, 16, 3);
    EX("ck54", ode::runge_kutta_cash_karp54<lvec BOOST_PP_COMMA() LD>, 5, 4, 16); EX("ck54-classic", ode::runge_kutta_cash_karp54_classic<lvec BOOST_PP_COMMA() LD>, 5, 4, 16); EX("dopri5", ode::runge_kutta_dopri5<lvec BOOST_PP_COMMA() LD>, 5, 4, 16); EX("rkf78", ode::runge_kutta_fehlberg78<lvec BOOST_PP_COMMA() LD>, 8, 7, 8);
    EX("extrapolation4", ode::extrapolation_stepper<4 BOOST_PP_COMMA() lvec BOOST_PP_COMMA() LD>, 4, 2, 8); EX("extrapolation6", ode::extrapolation_stepper<6 BOOST_PP_COMMA() lvec BOOST_PP_COMMA() LD>, 6, 4, 8); EX("extrapolation8", ode::extrapolation_stepper<8 BOOST_PP_COMMA() lvec BOOST_PP_COMMA() LD>, 8, 6, 8); 
    expl<ode::modified_midpoint<lvec, LD>, lvec, LD>("modified-midpoint", 2, 2, 16, 4);
#elif PART == 1
    multistep<1>(); multistep<2>(); multistep<3>(); multistep<4>(); multistep<5>(); multistep<6>(); multistep<7>(); multistep<8>();
    sympl<ode::symplectic_euler<lvec, lvec, LD>>("symplectic-euler", 1, 1, 64); sympl<ode::symplectic_rkn_sb3a_mclachlan<lvec, lvec, LD>>("sb3a", 4, 4, 16); sympl<ode::symplectic_rkn_sb3a_m4_mclachlan<lvec, lvec, LD>>("sb3a-m4", 4, 4, 16);
    H::group("velocity-verlet", 3, [&](Rng &r) { typedef ode::velocity_verlet<lvec, lvec, LD, lvec, LD, LD> S; H::describe("velocity-verlet"); H::nontrivial(); LD e[3] = {0, 0, 0}; for (int cc = 0; cc < NP; ++cc) { int m = 3; std::vector<double> w; lvec q0(m), p0(m); for (int i = 0; i < m; ++i) { w.push_back(r.uni(0.5, 2)); q0[i] = r.uni(-1.5, 1.5); p0[i] = r.uni(-1, 1); } auto f = [&](const lvec &q, const lvec &, lvec &a, LD) { for (size_t i = 0; i < q.size(); ++i) a[i] = -LD(w[i]) * std::sin(q[i]) - 0.2L * q[(i + 1) % q.size()]; };
        auto go = [&](int n) { S s; auto x = std::make_pair(q0, p0); for (int i = 0; i < n; ++i) s.do_step(f, x, LD(i) * 2 / n, LD(2) / n); return x; }; auto ref = go(1 << 15); for (int k = 0; k < 3; ++k) { auto x = go(32 << k); LD mx = 0; for (int j = 0; j < m; ++j) mx = std::max(mx, std::max(std::fabs(x.first[j] - ref.first[j]), std::fabs(x.second[j] - ref.second[j]))); e[k] += mx; } } LD p = std::log2(e[1] / e[2]); H::maxi("order-deficit-verlet", double(2 - p)); HCHECK(p > 1.7 && p < 2.6, "measured-order", double(p)); });
    H::group("rosenbrock4", 3, [&](Rng &r) { typedef ode::rosenbrock4<LD> S; Setup s = setup(r, 3, 2); H::describe("rosenbrock4"); H::nontrivial(); HCHECK(S().order() == 4 && S::stepper_order + 0 == 4 && S::error_order + 0 == 3, "declared-order", ""); measure("rosenbrock4", s, 32, 3, 4, [](const T::Prob &p, double t0, double dt, int n) { S q; T::Log l; auto sy = std::make_pair(T::Sys(p, l), Jld{&p}); ub::vector<LD> x = mkst<ub::vector<LD>>(p, t0); LD m = 0; for (int i = 0; i < n; ++i) { q.do_step(sy, x, LD(t0) + i * LD(dt), LD(dt)); m = std::max(m, err<LD>(p, x, LD(t0) + (i + 1) * LD(dt))); } return m; });
        measure("rosenbrock4-error", s, 32, 3, 4, [](const T::Prob &p, double t0, double dt, int n) { T::Log l; auto sy = std::make_pair(T::Sys(p, l), Jld{&p}); LD m = 0; for (int i = 0; i < n; i += n / 8) { LD t = LD(t0) + i * LD(dt); ub::vector<LD> x = mkst<ub::vector<LD>>(p, double(t)), y = x, e = x; S().do_step(sy, x, t, y, LD(dt), e); for (int j = 0; j < p.n; ++j) m = std::max(m, std::fabs(e[j])); } return m; }, 0.25, 0.35); });
    H::group("implicit-euler", 3, [&](Rng &r) { typedef ode::implicit_euler<double> S; Setup s = setup(r, 3, 2); H::describe("implicit-euler"); H::nontrivial(); measure("implicit-euler", s, 128, 3, 1, [](const T::Prob &p, double t0, double dt, int n) { S q(1e-10); T::Log l; auto sy = std::make_pair(T::Sys(p, l), Jld{&p}); uvec x = mkst<uvec>(p, t0); LD m = 0; for (int i = 0; i < n; ++i) { q.do_step(sy, x, t0 + i * dt, dt); m = std::max(m, err<double>(p, x, t0 + (i + 1) * dt)); } return m; }); });
    // adaptive Adams steppers without control: constant steps
    H::group("generic-heun3", 3, [&](Rng &r) { typedef ode::explicit_generic_rk<3, 3, lvec, LD> S; Setup s = setup(r, 3, 2); H::describe("generic-heun3"); H::nontrivial(); HCHECK(S::order_value == 3, "declared-order", "");
        measure("generic-heun3", s, 32, 3, 3, [](const T::Prob &p, double t0, double dt, int n) { typedef S::coef_a_type A; (void)sizeof(A); S q(heun_a(), S::coef_b_type{{0.25L, 0, 0.75L}}, S::coef_c_type{{0, 1 / 3.0L, 2 / 3.0L}}); T::Log l; T::Sys sy(p, l); lvec x = mkst<lvec>(p, t0); LD m = 0; for (int i = 0; i < n; ++i) { q.do_step(sy, x, LD(t0) + i * LD(dt), LD(dt)); m = std::max(m, err<LD>(p, x, LD(t0) + (i + 1) * LD(dt))); } return m; }); });
#else
    expl<ode::runge_kutta4<mvec, MP>, mvec, MP>("mp-rk4", 4, 4, 4, 3, 2, 1e-3); expl<ode::runge_kutta_cash_karp54<mvec, MP>, mvec, MP>("mp-ck54", 5, 5, 4, 3, 2, 1e-3); expl<ode::runge_kutta_dopri5<mvec, MP>, mvec, MP>("mp-dopri5", 5, 5, 4, 3, 2, 1e-3); expl<ode::runge_kutta_fehlberg78<mvec, MP>, mvec, MP>("mp-rkf78", 8, 8, 4, 3, 2, 1e-3); expl<ode::extrapolation_stepper<8, mvec, MP>, mvec, MP>("mp-extrapolation8", 8, 8, 4, 3, 2, 1e-3); expl<ode::extrapolation_stepper<10, mvec, MP>, mvec, MP>("mp-extrapolation10", 10, 10, 4, 3, 2, 0.1); embedded<ode::extrapolation_stepper<10, mvec, MP>, mvec, MP>("mp-extrapolation10", 10, 8, 8); expl<ode::modified_midpoint<mvec, MP>, mvec, MP>("mp-midpoint", 2, 2, 4, 3, 2, 1e-3);
    embedded<ode::runge_kutta_cash_karp54<mvec, MP>, mvec, MP>("mp-ck54", 5, 4, 8); embedded<ode::runge_kutta_dopri5<mvec, MP>, mvec, MP>("mp-dopri5", 5, 4, 8); embedded<ode::runge_kutta_fehlberg78<mvec, MP>, mvec, MP>("mp-rkf78", 8, 7, 8);
    expl<ode::runge_kutta4<larr, LD>, larr, LD>("array-rk4", 4, 4, 16); expl<ode::runge_kutta_dopri5<larr, LD>, larr, LD>("array-dopri5", 5, 5, 16); expl<ode::runge_kutta_fehlberg78<larr, LD>, larr, LD>("array-rkf78", 8, 8, 8);
    expl<ode::runge_kutta4<evec, LD, evec, LD, ode::vector_space_algebra>, evec, LD>("eigen-rk4", 4, 4, 16); expl<ode::runge_kutta_cash_karp54<evec, LD, evec, LD, ode::vector_space_algebra>, evec, LD>("eigen-ck54", 5, 5, 16); expl<ode::runge_kutta_fehlberg78<evec, LD, evec, LD, ode::vector_space_algebra>, evec, LD>("eigen-rkf78", 8, 8, 8);
    typedef ode::stepper_tag P; typedef ode::controlled_stepper_tag C; typedef ode::dense_output_stepper_tag D; using namespace ode;
    cat<euler<vec>, P, P>("euler"); cat<runge_kutta4<vec>, P, P>("rk4"); cat<runge_kutta4_classic<vec>, P, P>("rk4-classic"); cat<modified_midpoint<vec>, P, P>("midpoint"); cat<runge_kutta_cash_karp54<vec>, explicit_error_stepper_tag, P>("ck54"); cat<runge_kutta_cash_karp54_classic<vec>, explicit_error_stepper_tag, P>("ck54-classic"); cat<runge_kutta_fehlberg78<vec>, explicit_error_stepper_tag, P>("rkf78"); cat<extrapolation_stepper<4, vec>, explicit_error_stepper_tag, P>("extrapolation"); cat<runge_kutta_dopri5<vec>, explicit_error_stepper_fsal_tag, P>("dopri5");
    cat<adams_bashforth<3, vec>, P, P>("ab"); cat<adams_bashforth_moulton<3, vec>, P, P>("abm"); cat<adams_moulton<3, vec>, P, P>("am"); cat<adaptive_adams_bashforth_moulton<3, vec>, error_stepper_tag, P>("aabm"); cat<controlled_adams_bashforth_moulton<adaptive_adams_bashforth_moulton<3, vec>>, C, C>("caabm"); cat<velocity_verlet<vec>, P, P>("verlet"); cat<symplectic_euler<vec>, P, P>("symplectic"); cat<rosenbrock4<double>, P, P>("rosenbrock"); cat<implicit_euler<double>, P, P>("implicit");
    cat<controlled_runge_kutta<runge_kutta_cash_karp54<vec>>, explicit_controlled_stepper_tag, C>("c-ck54"); cat<controlled_runge_kutta<runge_kutta_dopri5<vec>>, explicit_controlled_stepper_fsal_tag, C>("c-dopri5"); cat<bulirsch_stoer<vec>, C, C>("bs"); cat<rosenbrock4_controller<rosenbrock4<double>>, C, C>("c-ros"); cat<bulirsch_stoer_dense_out<vec>, D, D>("d-bs"); cat<rosenbrock4_dense_output<rosenbrock4_controller<rosenbrock4<double>>>, D, D>("d-ros"); cat<dense_output_runge_kutta<euler<vec>>, D, D>("d-euler"); cat<dense_output_runge_kutta<controlled_runge_kutta<runge_kutta_dopri5<vec>>>, D, D>("d-dopri5");
#endif
    return H::finish();
}
