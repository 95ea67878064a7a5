// C16: the BLAS operations (external/mkl) compute what default_operations compute: operation by operation, and inside whole steps.
#include "h.hpp"
#include "sys.hpp"
#include <array>
#include <boost/numeric/odeint/config.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/algebra/default_operations.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
#include <boost/numeric/odeint/stepper/explicit_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/external/mkl/mkl_operations.hpp>
namespace ode = boost::numeric::odeint; using H::Rng;
typedef std::vector<double> V; typedef ode::vector_space_algebra VA; typedef ode::mkl_operations MO; typedef ode::range_algebra RA; typedef ode::default_operations DO;
static V rnd(Rng &r, int n) { V v(n); for (auto &a : v) a = r.uni(-3, 3); return v; }
static double diff(const V &a, const V &b) { double d = a.size() == b.size() ? 0 : 1e300; for (size_t i = 0; i < a.size() && i < b.size(); ++i) { double e = std::fabs(a[i] - b[i]); if (!(e <= d)) d = e; } return d; }
static void ops() {
    H::group("operations", 600, [](Rng &r) { int K = r.range(2, 5), n = r.range(1, 12), al = r.range(-1, 0) /* the only aliasing any stepper uses with them */; V f = rnd(r, K); if (r.coin(0.3)) f[0] = 1; if (r.coin(0.1)) f[r.range(0, K - 1)] = 0; std::vector<V> o; for (int k = 0; k < K; ++k) o.push_back(rnd(r, n)); V fresh(n, 77.5), ref(n); H::describe("operands ", K, " size ", n, " target is operand ", al); H::nontrivial(); std::vector<V> o0 = o;
        for (int i = 0; i < n; ++i) { double s = 0; for (int k = 0; k < K; ++k) s += f[k] * o[k][i]; ref[i] = s; }
        V &t = al < 0 ? fresh : o[al]; VA a; long c = mkl_calls();
        if (K == 2) a.for_each3(t, o[0], o[1], MO::scale_sum2<>(f[0], f[1])); else if (K == 3) a.for_each4(t, o[0], o[1], o[2], MO::scale_sum3<>(f[0], f[1], f[2])); else if (K == 4) a.for_each5(t, o[0], o[1], o[2], o[3], MO::scale_sum4<>(f[0], f[1], f[2], f[3])); else a.for_each6(t, o[0], o[1], o[2], o[3], o[4], MO::scale_sum5<>(f[0], f[1], f[2], f[3], f[4]));
        H::count("operations"); HREQUIRE(mkl_calls() > c, "no-blas", "the operation did not use BLAS"); HREQUIRE(diff(t, ref) <= 1e-13, "result", "scale_sum", K, " differs by ", diff(t, ref)); for (int k = 0; k < K; ++k) if (k != al) HREQUIRE(o[k] == o0[k], "operand", "operand ", k, " was modified"); });
}
template <class S, class R> void st(const char *nm, bool oop) { H::group(nm, 60, [=](Rng &r) { int n = r.range(1, 8), m = r.range(1, 9); T::Prob p = T::Prob::make(r, n, 2.5, 0.5); double t = r.uni(-3, 3), h = r.logu(1e-3, 0.3) * r.sign(); T::Log l; T::Sys sy(p, l); V x = p.exact(t), y = x; for (auto &a : x) a += r.uni(-1, 1); y = x; S s; R q; H::describe(nm, " dim=", n, " dt=", h, " steps=", m); H::nontrivial();
    for (int i = 0; i < m; ++i) { if (oop && r.coin()) { V in = x, o(n, 55.5); s.do_step(sy, x, t, o, h); HREQUIRE(in == x, "input-changed", "step ", i); x = o; } else s.do_step(sy, x, t, h); q.do_step(sy, y, t, h); t += h; double sc = 1; for (double a : y) sc = std::max(sc, std::fabs(a)); H::count("steps"); HREQUIRE(diff(x, y) <= 1e-12 * sc, "step", "step ", i, " differs by ", diff(x, y)); } }); }
struct F { void operator()(const V &p, V &d) const { for (size_t i = 0; i < p.size(); ++i) d[i] = p[i] + 0.3 * std::sin(p[i]); } };
struct G { void operator()(const V &q, V &d) const { for (size_t i = 0; i < q.size(); ++i) d[i] = -std::sin(q[i]) - 0.2 * q[(i + 1) % q.size()]; } };
struct A { void operator()(const V &q, const V &v, V &d, double t) const { for (size_t i = 0; i < q.size(); ++i) d[i] = -std::sin(q[i]) - 0.1 * v[i] + 0.1 * std::cos(t); } };
template <class S, class R, class Y> void sym(const char *nm, Y sy) { H::group(nm, 60, [=](Rng &r) { int n = r.range(1, 8), m = r.range(1, 9); std::pair<V, V> x(rnd(r, n), rnd(r, n)), y = x; double t = r.uni(-3, 3), h = r.logu(1e-3, 0.3) * r.sign(); S s; R q; H::describe(nm, " dim=", n, " dt=", h); H::nontrivial(); for (int i = 0; i < m; ++i, t += h) { s.do_step(sy, x, t, h); q.do_step(sy, y, t, h); H::count("steps"); double d = std::max(diff(x.first, y.first), diff(x.second, y.second)); HREQUIRE(d <= 1e-12 * 10, "step", "step ", i, " differs by ", d); } }); }
template <class Al, class O> struct Heun3 : ode::explicit_generic_rk<3, 3, V, double, V, double, Al, O> { typedef ode::explicit_generic_rk<3, 3, V, double, V, double, Al, O> B; static boost::fusion::vector<boost::array<double, 1>, boost::array<double, 2>> a() { boost::array<double, 1> a1 = {{1. / 3}}; boost::array<double, 2> a2 = {{0, 2. / 3}}; return boost::fusion::vector<boost::array<double, 1>, boost::array<double, 2>>(a1, a2); } Heun3() : B(a(), boost::array<double, 3>{{0.25, 0, 0.75}}, boost::array<double, 3>{{0, 1. / 3, 2. / 3}}) {} };
int main(int c, char **v) { H::init(c, v, "mkl"); ops();
    st<ode::euler<V, double, V, double, VA, MO>, ode::euler<V, double, V, double, RA, DO>>("euler", true);
    st<ode::runge_kutta4_classic<V, double, V, double, VA, MO>, ode::runge_kutta4_classic<V, double, V, double, RA, DO>>("rk4-classic", true);
    st<ode::runge_kutta4<V, double, V, double, VA, MO>, ode::runge_kutta4<V, double, V, double, RA, DO>>("rk4", true);
    st<Heun3<VA, MO>, Heun3<RA, DO>>("generic-rk3", true);
    st<ode::adams_bashforth<4, V, double, V, double, VA, MO, ode::initially_resizer, ode::runge_kutta4<V, double, V, double, VA, MO>>, ode::adams_bashforth<4, V, double, V, double, RA, DO, ode::initially_resizer, ode::runge_kutta4<V, double, V, double, RA, DO>>>("adams-bashforth4", true);
    st<ode::adams_bashforth_moulton<3, V, double, V, double, VA, MO, ode::initially_resizer, ode::runge_kutta4<V, double, V, double, VA, MO>>, ode::adams_bashforth_moulton<3, V, double, V, double, RA, DO, ode::initially_resizer, ode::runge_kutta4<V, double, V, double, RA, DO>>>("adams-bashforth-moulton3", true);
    sym<ode::symplectic_euler<V, V, double, V, V, double, VA, MO>, ode::symplectic_euler<V, V, double, V, V, double, RA, DO>>("symplectic-euler", std::make_pair(F(), G()));
    sym<ode::symplectic_rkn_sb3a_mclachlan<V, V, double, V, V, double, VA, MO>, ode::symplectic_rkn_sb3a_mclachlan<V, V, double, V, V, double, RA, DO>>("symplectic-sb3a", G());
    sym<ode::velocity_verlet<V, V, double, V, double, double, VA, MO>, ode::velocity_verlet<V, V, double, V, double, double, RA, DO>>("velocity-verlet", A());
    return H::finish(); }
