// C23. PART 0: global accuracy, work and scaling over the tolerance for every adaptive stepper; 1: generation functions, defaults, integrate()
#include "zoo.hpp"
#include <array>
#include <functional>
#include <boost/numeric/odeint/integrate/integrate.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp>
using namespace Z; using H::Rng;
enum { NP = 5 };
struct Run { double err = 0; long steps = 0, calls = 0; };
struct Ob { const T::Prob *p; double t0, *err; long *n; template <class X> void operator()(const X &x, double t) const { ++*n; std::vector<double> e = p->exact(t); double a = p->amp(t - t0); for (int i = 0; i < p->n; ++i) { double d = std::fabs(x[i] - e[i]) / a; if (!(d < 1e300)) d = INFINITY; *err = std::max(*err, d); } } };
template <class Tag, class Mk> Run drive(Mk mk, const T::Prob &p, double t0, double len, double ea, double er, int how) {
    Run q; T::Log l; auto s = mk(ea, er); auto sy = Tag::system(p, l); auto x = Tag::make(p.exact(t0)); long n = 0; Ob o{&p, t0, &q.err, &n}; double dt = (len > 0 ? 1 : -1) * 0.01;
    if (how == 0) q.steps = long(ode::integrate_adaptive(s, sy, x, t0, t0 + len, dt, o)); else q.steps = long(ode::integrate_const(s, sy, x, t0, t0 + len, (len > 0 ? 1 : -1) * 0.731, o)); q.calls = l.calls; H::count("observations", n); return q;
}
// bound: largest accepted ratio of error and tolerance
template <class Tag, class Mk> void sweep(const std::string &nm, Mk mk, double emin, double bound, int reps = 6) {
    H::group(nm, reps, [&](Rng &r) { bool bs = nm.find("bs") != std::string::npos; int n = r.range(2, 4), how = r.range(0, 1), kind = r.range(0, 2); double len = r.sign() * r.uni(3, 6); std::vector<T::Prob> p; std::vector<double> t0; for (int i = 0; i < NP; ++i) { p.push_back(T::Prob::make(r, n, 2.5, 0.4)); t0.push_back(r.uni(-10, 10)); }
        H::describe(nm, " dim=", n, " how=", how, " tolerances=", kind == 0 ? "both" : kind == 1 ? "absolute" : "relative", " len=", len, " t0=", t0[0]); H::nontrivial(); std::vector<double> E; std::vector<long> N, S;
        double e0 = 1e-3 * r.uni(0.3, 1); for (double e = e0; e >= emin * 0.99; e *= 0.1) { double s = 0; long c = 0, st = 0; for (int i = 0; i < NP; ++i) { Run q = drive<Tag>(mk, p[i], t0[i], len, kind == 2 ? 0 : e, kind == 1 ? 0 : e, how); double ratio = q.err / (e * (1 + std::fabs(len))); H::maxi("ratio-" + nm, ratio); HCHECK(ratio <= bound, "global-error", "tolerance ", e, ": error ", q.err, " (ratio ", ratio, ")"); s += q.err; c += q.calls; st += q.steps; H::count("integrations"); } E.push_back(s); N.push_back(c); S.push_back(st); }
        if (how == 0 || nm[0] == 'd') for (size_t i = 0; i + 2 < E.size(); ++i) { H::maxi("decrease-" + nm, E[i + 2] / E[i]); HCHECK(E[i + 2] <= 0.5 * E[i] || E[i + 2] < 1e-12, "error-decreases", "errors ", E[i], " and ", E[i + 2], " for tolerances ", e0 * std::pow(0.1, double(i)), " and a hundredth of it"); if (i + 3 < N.size()) HCHECK(N[i + 3] > N[i], "work-grows", "system calls ", N[i], " and ", N[i + 3]); }
        HCHECK(bs || S.back() > S.front(), "steps-grow", "steps ", S.front(), " and ", S.back()); });
}
// linear homogeneous x' = A(t) x: a purely relative tolerance makes the run invariant under scaling, a purely absolute one does not
struct Lin { int n; std::vector<double> a, w; long *calls; template <class X, class D> void operator()(const X &x, D &d, double t) const { ++*calls; for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) s += a[i * n + j] * std::cos(w[i] * t + j) * x[j]; d[i] = s; } } };
struct LinJ { const Lin *l; void operator()(const uvec &x, umat &J, double t, uvec &d) const { int n = l->n; for (int i = 0; i < n; ++i) { d[i] = 0; for (int j = 0; j < n; ++j) { J(i, j) = l->a[i * n + j] * std::cos(l->w[i] * t + j); d[i] -= l->a[i * n + j] * std::sin(l->w[i] * t + j) * l->w[i] * x[j]; } } } };
struct Rec { std::vector<double> *t; std::vector<vec> *x; int n; template <class X> void operator()(const X &s, double tt) const { if (t->size() > 200000) throw H::Budget(); t->push_back(tt); vec v; for (int i = 0; i < n; ++i) v.push_back(s[i]); x->push_back(v); } };
inline const Lin &mks(const SysE &, const Lin &l) { return l; } inline std::pair<Lin, LinJ> mks(const SysI &, const Lin &l) { return std::make_pair(l, LinJ{&l}); }
template <class Tag, class Mk> void scaling(const std::string &nm, Mk mk) {
    H::group(nm + "-scaling", 20, [&](Rng &r) { long calls = 0; Lin l; l.calls = &calls; l.n = r.range(2, 4); for (int i = 0; i < l.n * l.n; ++i) l.a.push_back(r.uni(-1, 1)); for (int i = 0; i < l.n; ++i) l.w.push_back(r.uni(0.2, 2)); double t0 = r.uni(-3, 3), len = r.sign() * r.uni(2, 4), e = r.logu(1e-8, 1e-4), c = std::ldexp(1.0, r.range(14, 20)); vec x0(l.n); for (auto &v : x0) v = r.sign() * r.uni(0.5, 2);
        H::describe(nm, " dim=", l.n, " t0=", t0, " len=", len, " eps=", e, " factor=", c); H::nontrivial();
        auto go = [&](double ea, double er, double f) { std::pair<std::vector<double>, std::vector<vec>> q; vec y = x0; for (auto &v : y) v *= f; auto s = mk(ea, er); auto x = Tag::make(y); auto sy = mks(Tag(), l); ode::integrate_adaptive(s, sy, x, t0, t0 + len, len > 0 ? 0.01 : -0.01, Rec{&q.first, &q.second, l.n}); return q; };
        auto cmp = [&](const char *key, const std::pair<std::vector<double>, std::vector<vec>> &a, const std::pair<std::vector<double>, std::vector<vec>> &b, double f) { HREQUIRE(a.first.size() == b.first.size(), key, a.first.size(), " and ", b.first.size(), " points"); for (size_t i = 0; i < a.first.size(); ++i) { HREQUIRE(std::fabs(a.first[i] - b.first[i]) <= 1e-9, key, "times ", a.first[i], " and ", b.first[i]); for (int k = 0; k < l.n; ++k) HREQUIRE(std::fabs(a.second[i][k] * f - b.second[i][k]) <= 1e-8 * f * (1 + std::fabs(a.second[i][k])), key, "states differ at ", a.first[i]); } H::count("compared-points", long(a.first.size())); };
        auto rel = go(0, e, 1); cmp("relative-tolerance", rel, go(0, e, c), c); calls = 0; auto ab = go(e, 0, 1); long c1 = calls; cmp("absolute-tolerance", ab, go(e * c, 0, c), c); calls = 0; auto abc = go(e, 0, c); HCHECK(calls > c1, "absolute-tolerance-ignored", "absolute tolerance: ", c1, " system calls, ", calls, " for the problem scaled by ", c);
        auto mix = go(e, e, 1); HCHECK(mix.first.size() <= std::max(rel.first.size(), ab.first.size()) + 2 + ab.first.size() / 5, "both-tolerances", "both: ", mix.first.size(), " relative only: ", rel.first.size(), " absolute only: ", ab.first.size()); cmp("both-scaled", mix, go(e * c, e, c), c); });
}
#if PART == 1
template <class A> auto fit(A &x, int n) -> decltype(x.resize(n)) { return x.resize(n); }
template <class V, size_t N> void fit(std::array<V, N> &, int) {}
// algebra that counts its operations through a pointer it was constructed with
struct CAlg : ode::range_algebra { long *n; CAlg(long *p = 0) : n(p) {}
#define FE(k, ...) template <class... A> void for_each##k(A &&...a) { if (n) ++*n; ode::range_algebra::for_each##k(std::forward<A>(a)...); }
    FE(1) FE(2) FE(3) FE(4) FE(5) FE(6) FE(7) FE(8) FE(9) FE(10) FE(11) FE(12) FE(13) FE(14) FE(15) };
struct P { std::vector<double> t; std::vector<vec> x; long steps; };
template <class Tag, class S> P play(S s, const T::Prob &p, double t0, double t1, double dt, vec x0) { P q; T::Log l; auto sy = Tag::system(p, l); auto x = Tag::make(x0); q.steps = long(ode::integrate_adaptive(s, sy, x, t0, t1, dt, Rec{&q.t, &q.x, p.n})); return q; }
static void eq(const char *key, const P &a, const P &b) { HREQUIRE(a.t.size() == b.t.size() && a.steps == b.steps, key, a.t.size(), " and ", b.t.size(), " points"); for (size_t i = 0; i < a.t.size(); ++i) { HREQUIRE(std::fabs(a.t[i] - b.t[i]) <= 1e-11 * (1 + std::fabs(b.t[i])), key, "point ", i, ": times ", a.t[i], " and ", b.t[i]); HREQUIRE(T::diff(a.x[i], b.x[i], int(a.x[i].size())) <= 1e-10, key, "states differ at t=", a.t[i]); } H::count("compared-points", long(a.t.size())); }
struct In { T::Prob p; double t0, t1, dt, ea, er, mx; vec x0; };
static In input(Rng &r, const std::string &nm) { In q; int n = r.range(2, 4); q.p = T::Prob::make(r, n, 2.5, 0.4); q.t0 = r.uni(-5, 5); double d = r.sign(); q.t1 = q.t0 + d * r.uni(2, 6); q.dt = d * r.logu(1e-3, 0.3); q.ea = r.logu(1e-9, 1e-3); q.er = r.logu(1e-9, 1e-3); q.mx = d * r.logu(0.01, 0.2); q.x0 = q.p.exact(q.t0); for (auto &v : q.x0) v += r.uni(-0.5, 0.5); H::describe(nm, " dim=", n, " t0=", q.t0, " t1=", q.t1, " dt=", q.dt, " abs=", q.ea, " rel=", q.er, " max=", q.mx); H::nontrivial(); return q; }
static void maxed(const P &a, const In &q) { double dmax = std::max(std::fabs(q.mx), std::fabs(q.dt)); for (size_t i = 1; i < a.t.size(); ++i) HREQUIRE(std::fabs(a.t[i] - a.t[i - 1]) <= dmax * (1 + 1e-9), "max-step", "step ", a.t[i] - a.t[i - 1], " beyond the limit ", q.mx); }
// S: stepper type, D: direct construction (abs, rel, max or 0)
template <class Tag, class S, class C, class D> void gen_controlled(const std::string &nm, D direct) {
    H::group("make-controlled-" + nm, 25, [&](Rng &r) { In q = input(r, nm); auto go = [&](auto s) { return play<Tag>(s, q.p, q.t0, q.t1, q.dt, q.x0); };
        static_assert(std::is_same<typename ode::result_of::make_controlled<S>::type, C>::value, "documented controlled stepper type"); static_assert(std::is_same<decltype(ode::make_controlled(1e-6, 1e-6, S())), C>::value, "documented controlled stepper type");
        P a = go(direct(q.ea, q.er, 0.0)); eq("tolerances", go(ode::make_controlled(q.ea, q.er, S())), a); eq("tolerances-default-stepper", go(ode::make_controlled<S>(q.ea, q.er)), a); P b = go(direct(q.ea, q.er, q.mx)); eq("max-step-size", go(ode::make_controlled(q.ea, q.er, q.mx, S())), b); eq("max-step-size-default-stepper", go(ode::make_controlled<S>(q.ea, q.er, q.mx)), b); maxed(b, q);
        eq("default-tolerance", go(C()), go(direct(1e-6, 1e-6, 0.0))); S st; eq("reused-stepper", go(ode::make_controlled(q.ea, q.er, st)), a); eq("reused-stepper", go(ode::make_controlled(q.ea, q.er, st)), a); });
}
template <class Tag, class S, class C, class D> void gen_dense(const std::string &nm, D direct) {
    H::group("make-dense-output-" + nm, 25, [&](Rng &r) { In q = input(r, nm); auto go = [&](auto s) { return play<Tag>(s, q.p, q.t0, q.t1, q.dt, q.x0); };
        static_assert(std::is_same<typename ode::result_of::make_dense_output<S>::type, C>::value, "documented dense output stepper type"); static_assert(std::is_same<decltype(ode::make_dense_output(1e-6, 1e-6, S())), C>::value, "documented type");
        P a = go(direct(q.ea, q.er, 0.0)); eq("tolerances", go(ode::make_dense_output(q.ea, q.er, S())), a); eq("tolerances-default-stepper", go(ode::make_dense_output<S>(q.ea, q.er)), a); P b = go(direct(q.ea, q.er, q.mx)); eq("max-step-size", go(ode::make_dense_output(q.ea, q.er, q.mx, S())), b); eq("max-step-size-default-stepper", go(ode::make_dense_output<S>(q.ea, q.er, q.mx)), b); maxed(b, q); eq("default-tolerance", go(C()), go(direct(1e-6, 1e-6, 0.0))); });
}
template <class S, class G> void object(const std::string &nm, G g) { // the stepper object handed over is the one used: its algebra counts
    H::group("stepper-object-" + nm, 10, [&](Rng &r) { In q = input(r, nm); for (int k = 0; k < 2; ++k) { long n = 0; CAlg al(&n); S st(al); auto c = k ? g(q.ea, q.er, q.mx, st) : g(q.ea, q.er, 0.0, st); n = 0; P a = play<SysE>(c, q.p, q.t0, q.t1, q.dt, q.x0); HCHECK(n > a.steps, "stepper-object", "the given stepper's algebra was used ", n, " times in ", a.steps, " steps"); } });
}
template <class St, class V> void entry(const std::string &nm, double tol) {
    H::group("integrate-" + nm, 20, [&](Rng &r) { In q = input(r, nm); q.p = T::Prob::make(r, 4, 2.5, 0.4); q.x0 = q.p.exact(q.t0); St x; fit(x, q.p.n); for (int i = 0; i < int(x.size()); ++i) x[i] = i < q.p.n ? V(q.x0[i]) : V(0); St y = x, z = x, w = x; T::Log l; T::Sys sy(q.p, l); struct O { std::vector<double> *t; void operator()(const St &, V tt) const { t->push_back(double(tt)); } }; std::vector<double> ta, tb, tc; V t0 = V(q.t0), t1 = V(q.t1), dt = V(q.dt);
        size_t a = ode::integrate(sy, x, t0, t1, dt, O{&ta}), b = ode::integrate_adaptive(ode::make_controlled(V(1e-6), V(1e-6), ode::runge_kutta_dopri5<St, V, St, V>()), sy, y, t0, t1, dt, O{&tb}), d = ode::integrate<V>(sy, z, t0, t1, dt, O{&tc}); size_t e = ode::integrate(sy, w, t0, t1, dt);
        HCHECK(a == b && b == d && d == e, "default-entry-steps", a, " ", b, " ", d, " ", e); HREQUIRE(ta.size() == tb.size() && ta.size() == tc.size() && ta.size() == a + 1, "default-entry-observations", ta.size(), " ", tb.size()); for (size_t i = 0; i < ta.size(); ++i) HREQUIRE(std::fabs(ta[i] - tb[i]) <= tol && std::fabs(tc[i] - tb[i]) <= tol, "default-entry-times", ta[i], " ", tb[i]); for (int i = 0; i < int(x.size()); ++i) HREQUIRE(std::fabs(double(x[i] - y[i])) <= tol && std::fabs(double(z[i] - y[i])) <= tol && std::fabs(double(w[i] - y[i])) <= tol, "default-entry-state", x[i], " ", y[i]); });
}
#endif
typedef ode::adaptive_adams_bashforth_moulton<3, vec> A3; typedef ode::adaptive_adams_bashforth_moulton<5, vec> A5; typedef ode::adaptive_adams_bashforth_moulton<8, vec> A8;
int main(int c, char **v) {
    H::init(c, v, "tol");
#define BOTH(nm, Tag, emin, bound, ...) { auto mk = [](double ea, double er) { return __VA_ARGS__; }; sweep<Tag>(nm, mk, emin, bound); scaling<Tag>(nm, mk); }
#if PART == 0
    BOTH("c-ck54", SysE, 1e-10, 10, ode::make_controlled(ea, er, ode::runge_kutta_cash_karp54<vec>())); BOTH("c-ck54-classic", SysE, 1e-10, 12, ode::make_controlled(ea, er, ode::runge_kutta_cash_karp54_classic<vec>())); BOTH("c-dopri5", SysE, 1e-10, 20, ode::make_controlled(ea, er, ode::runge_kutta_dopri5<vec>())); BOTH("c-rkf78", SysE, 1e-11, 200, ode::make_controlled(ea, er, ode::runge_kutta_fehlberg78<vec>()));
    BOTH("bs", SysE, 1e-11, 15, ode::bulirsch_stoer<vec>(ea, er)); BOTH("bs-dxdt", SysE, 1e-11, 8, ode::bulirsch_stoer<vec>(ea, er, 1, 0.1)); BOTH("d-dopri5", SysE, 1e-10, 80, ode::make_dense_output(ea, er, ode::runge_kutta_dopri5<vec>()));
    BOTH("c-extrapolation6", SysE, 1e-9, 4, ode::controlled_runge_kutta<ode::extrapolation_stepper<6, vec>>(ode::default_error_checker<double, ode::range_algebra, ode::default_operations>(ea, er)));
#elif PART == 2
    BOTH("d-bs", SysE, 1e-10, 200, ode::bulirsch_stoer_dense_out<vec>(ea, er)); BOTH("d-bs-ic", SysE, 1e-10, 10, ode::bulirsch_stoer_dense_out<vec>(ea, er, 1, 0, 0.0, true)); BOTH("c-ros", SysI, 1e-8, 0.1, ode::make_controlled(ea, er, ode::rosenbrock4<double>())); BOTH("d-ros", SysI, 1e-8, 3, ode::make_dense_output(ea, er, ode::rosenbrock4<double>()));
    BOTH("c-aabm3", SysE, 1e-7, 4, ode::make_controlled(ea, er, A3())); BOTH("c-aabm5", SysE, 1e-8, 4, ode::make_controlled(ea, er, A5())); BOTH("c-aabm8", SysE, 1e-9, 8, ode::make_controlled(ea, er, A8()));
#else
    typedef ode::runge_kutta_cash_karp54<vec> CK; typedef ode::runge_kutta_cash_karp54_classic<vec> CC; typedef ode::runge_kutta_dopri5<vec> D5; typedef ode::runge_kutta_fehlberg78<vec> F8; typedef ode::rosenbrock4<double> RO;
#define CRK(S) ode::controlled_runge_kutta<S>(ode::controlled_runge_kutta<S>::error_checker_type(a, b), ode::controlled_runge_kutta<S>::step_adjuster_type(m))
    gen_controlled<SysE, CK, ode::controlled_runge_kutta<CK>>("ck54", [](double a, double b, double m) { return CRK(CK); }); gen_controlled<SysE, CC, ode::controlled_runge_kutta<CC>>("ck54-classic", [](double a, double b, double m) { return CRK(CC); }); gen_controlled<SysE, D5, ode::controlled_runge_kutta<D5>>("dopri5", [](double a, double b, double m) { return CRK(D5); }); gen_controlled<SysE, F8, ode::controlled_runge_kutta<F8>>("rkf78", [](double a, double b, double m) { return CRK(F8); });
    gen_controlled<SysI, RO, ode::rosenbrock4_controller<RO>>("rosenbrock4", [](double a, double b, double m) { return ode::rosenbrock4_controller<RO>(a, b, m); }); gen_controlled<SysE, A5, ode::controlled_adams_bashforth_moulton<A5>>("adams", [](double a, double b, double m) { return ode::controlled_adams_bashforth_moulton<A5>(ode::controlled_adams_bashforth_moulton<A5>::step_adjuster_type(a, b, m ? m : 1.0)); });
    gen_dense<SysE, D5, ode::dense_output_runge_kutta<ode::controlled_runge_kutta<D5>>>("dopri5", [](double a, double b, double m) { return ode::dense_output_runge_kutta<ode::controlled_runge_kutta<D5>>(CRK(D5)); }); gen_dense<SysI, RO, ode::rosenbrock4_dense_output<ode::rosenbrock4_controller<RO>>>("rosenbrock4", [](double a, double b, double m) { return ode::rosenbrock4_dense_output<ode::rosenbrock4_controller<RO>>(ode::rosenbrock4_controller<RO>(a, b, m)); });
    typedef ode::runge_kutta_cash_karp54<vec, double, vec, double, CAlg> kCK; typedef ode::runge_kutta_dopri5<vec, double, vec, double, CAlg> kD5; typedef ode::runge_kutta_fehlberg78<vec, double, vec, double, CAlg> kF8; typedef ode::adaptive_adams_bashforth_moulton<4, vec, double, vec, double, CAlg> kA4;
#define OBJ(S, nm) object<S>(nm, [](double a, double b, double m, const S &s) { return m ? ode::make_controlled(a, b, m, s) : ode::make_controlled(a, b, s); })
    OBJ(kCK, "ck54"); OBJ(kD5, "dopri5"); OBJ(kF8, "rkf78"); OBJ(kA4, "adams"); object<kD5>("dense-dopri5", [](double a, double b, double m, const kD5 &s) { return m ? ode::make_dense_output(a, b, m, s) : ode::make_dense_output(a, b, s); });
    entry<vec, double>("vector", 1e-12); entry<std::array<double, 4>, double>("array", 1e-12); entry<std::vector<float>, float>("float", 1e-4); entry<std::vector<long double>, long double>("long-double", 1e-12);
    H::group("bs-defaults", 20, [](Rng &r) { In q = input(r, "bulirsch-stoer"); eq("default-tolerance", play<SysE>(ode::bulirsch_stoer<vec>(), q.p, q.t0, q.t1, q.dt, q.x0), play<SysE>(ode::bulirsch_stoer<vec>(1e-6, 1e-6, 1, 1), q.p, q.t0, q.t1, q.dt, q.x0)); eq("default-tolerance-dense", play<SysE>(ode::bulirsch_stoer_dense_out<vec>(), q.p, q.t0, q.t1, q.dt, q.x0), play<SysE>(ode::bulirsch_stoer_dense_out<vec>(1e-6, 1e-6, 1, 1), q.p, q.t0, q.t1, q.dt, q.x0)); maxed(play<SysE>(ode::bulirsch_stoer<vec>(q.ea, q.er, 1, 1, q.mx), q.p, q.t0, q.t1, q.dt, q.x0), q); maxed(play<SysE>(ode::bulirsch_stoer_dense_out<vec>(q.ea, q.er, 1, 1, q.mx), q.p, q.t0, q.t1, q.dt, q.x0), q); });
#endif
    return H::finish();
}
