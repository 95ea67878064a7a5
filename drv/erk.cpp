// C09: explicit Runge-Kutta steps against independent Butcher tableaux, stage by stage (PART 0: named methods, 1: generic)
#include "ref2.hpp"
#include <array>
#include <tuple>
#include <boost/fusion/algorithm.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/explicit_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/explicit_error_generic_rk.hpp>
namespace ode = boost::numeric::odeint; using H::Rng;
typedef std::vector<double> vec; typedef std::array<double, 4> arr;
static vec mkst(const vec &v, vec *) { return v; }
static arr mkst(const vec &v, arr *) { arr a; std::copy(v.begin(), v.end(), a.begin()); return a; }
struct Plain {}; struct Err {}; struct Fsal {};
struct Ctx { const T::Rough *p; T::Log l; double t, dt; int form; };
// one call in the given form; d: derivative (in/out), e: error
template <class S, class X> void call(Plain, S &s, Ctx &c, X &x, X &o, X &d, X &e) {
    T::RSys sy(*c.p, c.l);
    switch (c.form % 4) { case 0: s.do_step(sy, x, c.t, c.dt); o = x; break; case 1: s.do_step(sy, x, c.t, o, c.dt); break; case 2: s.do_step(sy, x, d, c.t, c.dt); o = x; break; default: s.do_step(sy, x, d, c.t, o, c.dt); }
}
template <class S, class X> void call(Err, S &s, Ctx &c, X &x, X &o, X &d, X &e) {
    T::RSys sy(*c.p, c.l); if (c.form < 4) { call(Plain(), s, c, x, o, d, e); return; }
    switch (c.form) { case 4: s.do_step(sy, x, c.t, c.dt, e); o = x; break; case 5: s.do_step(sy, x, c.t, o, c.dt, e); break; case 6: s.do_step(sy, x, d, c.t, c.dt, e); o = x; break; default: s.do_step(sy, x, d, c.t, o, c.dt, e); }
}
template <class S, class X> void call(Fsal, S &s, Ctx &c, X &x, X &o, X &d, X &e) {
    T::RSys sy(*c.p, c.l); X dn = x; for (auto &v : dn) v = NAN;
    switch (c.form) { case 0: s.do_step(sy, x, c.t, c.dt); o = x; break; case 1: s.do_step(sy, x, c.t, o, c.dt); break; case 2: s.do_step(sy, x, d, c.t, c.dt); o = x; break; case 3: s.do_step(sy, x, d, c.t, o, dn, c.dt); d = dn; break;
        case 4: s.do_step(sy, x, c.t, c.dt, e); o = x; break; case 5: s.do_step(sy, x, c.t, o, c.dt, e); break; case 6: s.do_step(sy, x, d, c.t, c.dt, e); o = x; break; default: s.do_step(sy, x, d, c.t, o, dn, c.dt, e); d = dn; }
}
template <class S, class X> bool restart(S &s, Ctx &c, X &x, X &d, int how, std::true_type) { T::Log l; T::RSys sy(*c.p, l); if (how == 0) { s.reset(); return false; } if (how == 1) s.initialize(d); else s.initialize(sy, x, c.t); return true; }
template <class S, class X> bool restart(S &, Ctx &, X &, X &, int, std::false_type) { return false; }
template <class St, class Kind, class Mk, class Ref> void run(const std::string &nm, int cases, Kind kind, Mk mk, Ref ref, bool fsal = false) {
    H::group(nm, cases, [&](Rng &r) {
        int n = std::is_same<St, arr>::value ? 4 : r.range(1, 6); T::Rough p = T::Rough::make(r, n); Ctx c; c.p = &p; c.l.rec = true; bool hasErr = !std::is_same<Kind, Plain>::value;
        c.t = r.coin(0.2) ? 0 : r.uni(-30, 30); c.dt = r.coin(0.05) ? 0 : r.sign() * r.logu(1e-4, 1.2); c.form = r.range(0, hasErr ? 7 : 3); vec x0(n); for (auto &v : x0) v = r.uni(-3, 3);
        auto s = mk(r); int reps = r.range(1, 5); bool mix = r.coin(), jumps = r.coin(0.4), cls = c.form % 4 >= 2; H::describe(nm, " dim=", n, " form=", c.form, " t=", c.t, " dt=", c.dt, " steps=", reps, " mixed=", mix, " jumps=", jumps); H::nontrivial(c.dt != 0);
        St x = mkst(x0, (St *)0); St d = x; p.rhs<double>(x, d, c.t); bool have = false; // have: the FSAL stepper holds the derivative
        for (int k = 0; k < reps; ++k) {
            if (k && mix) { do c.form = r.range(0, hasErr ? 7 : 3); while (fsal && (c.form % 4 >= 2) != cls); }
            if (k && jumps && r.coin(0.4)) { for (int i = 0; i < n; ++i) x[i] = r.uni(-3, 3); c.t = r.uni(-30, 30); c.dt = r.sign() * r.logu(1e-4, 1.2); p.rhs<double>(x, d, c.t); have = restart(s, c, x, d, r.range(0, 2), std::integral_constant<bool, std::is_same<Kind, Fsal>::value>()); H::count("jumps"); }
            vec xin(x.begin(), x.end()); auto o = ref(s, p, T::lv(xin), R::LD(c.t), R::LD(c.dt)); St out = x, e = x; for (auto &v : out) v = NAN; for (auto &v : e) v = NAN;
            bool withd = c.form % 4 >= 2; if (withd && !fsal) p.rhs<double>(x, d, c.t); c.l.e.clear(); call(kind, s, c, x, out, d, e);
            double sc = 1; for (auto &v : o.K) for (auto y : v) sc = std::max(sc, std::fabs(double(y))); double tol = 4e-13 * sc * (1 + std::fabs(c.t)) ;
            double df = T::diff(out, o.x, n); H::maxi("dev-state/" + nm, df / sc); HCHECK(df <= tol, "state", "step ", k, " differs from the tableau by ", df, ": ", T::str(out, n), " expected ", T::str(o.x, n));
            if (c.form >= 4) { double e1 = T::diff(e, o.err, n); R::V m = o.err; for (auto &v : m) v = -v; double e2 = T::diff(e, m, n), em = std::min(e1, e2); H::maxi("dev-err/" + nm, em / sc); HCHECK(em <= tol, "error-estimate", "differs from the difference of the embedded solutions by ", em, ": ", T::str(e, n), " expected +-", T::str(o.err, n)); H::count("error-estimates"); }
            if (fsal && withd) { R::V dn = o.K.back(); double dd = T::diff(d, dn, n); HCHECK(dd <= 100 * tol, "new-derivative", "returned derivative differs from f at the new state by ", dd); }
            size_t lo = withd || (fsal && have) ? 1 : 0; have = fsal && !withd; std::string w = T::match_log(c.l, o, lo, tol); HCHECK(w.empty(), "evaluations", w); H::count("evaluations", c.l.e.size()); H::count("steps");
            if (c.form % 4 == 1 || c.form % 4 == 3) { HCHECK(vec(x.begin(), x.end()) == xin, "input-modified", "out-of-place form ", c.form); }
            x = out; c.t += c.dt;
        } });
}
template <int N> struct Gen {
    typedef ode::explicit_generic_rk<N, 2, vec> plain; typedef ode::explicit_error_generic_rk<N, 2, 2, 1, vec> err;
    template <size_t M> static boost::array<double, M> row(Rng &r, bool sp) { boost::array<double, M> a; R::V v; for (size_t k = 0; k < M; ++k) { a[k] = sp && r.coin(0.4) ? 0.0 : r.uni(-1, 1); v.push_back(a[k]); } cur().a.push_back(v); return a; }
    template <class A, size_t... I> static A rows(Rng &r, bool sp, std::index_sequence<I...>) { std::tuple<boost::array<double, I + 1>...> t{row<I + 1>(r, sp)...}; return A(std::get<I>(t)...); }
    static R::Tab &cur() { static R::Tab t; return t; }
    template <class C> static typename C::coef_a_type coef(Rng &r, typename C::coef_b_type &b, typename C::coef_b_type &b2, typename C::coef_c_type &c) {
        R::Tab &t = cur(); t = R::Tab(); t.s = N; t.a.push_back(R::V()); auto a = rows<typename C::coef_a_type>(r, r.coin(), std::make_index_sequence<N - 1>());
        for (int k = 0; k < N; ++k) { b[k] = r.uni(-1, 1); b2[k] = r.uni(-1, 1); c[k] = k ? r.uni(-0.5, 1.2) : 0.0; t.b.push_back(b[k]); t.c.push_back(c[k]); t.bh.push_back(R::LD(b[k]) - R::LD(b2[k])); } // the generic stepper takes b2 = b - bh
        return a;
    }
    static R::Out ref(const T::Rough &p, const R::V &x, R::LD t, R::LD h) { return R::step(cur(), T::RF{&p}, x, t, h); }
    static void all(int cases) {
        std::string n = std::to_string(N);
        run<vec>("generic-rk-" + n, cases, Plain(), [](Rng &r) { typename plain::coef_b_type b, b2; typename plain::coef_c_type c; auto a = coef<plain>(r, b, b2, c); return plain(a, b, c); }, [](plain &, const T::Rough &p, const R::V &x, R::LD t, R::LD h) { return ref(p, x, t, h); });
    }
    static void errs(int cases) { std::string n = std::to_string(N);
        run<vec>("generic-error-rk-" + n, cases, Err(), [](Rng &r) { typename err::coef_b_type b, b2; typename err::coef_c_type c; auto a = coef<err>(r, b, b2, c); return err(a, b, b2, c); }, [](err &, const T::Rough &p, const R::V &x, R::LD t, R::LD h) { return ref(p, x, t, h); });
    }
};
#define TABREF(tab) [](auto &, const T::Rough &p, const R::V &x, R::LD t, R::LD h) { static const R::Tab q = R::tab(); return R::step(q, T::RF{&p}, x, t, h); }
template <class St> void named(const std::string &sfx) {
    run<St>("euler" + sfx, 80, Plain(), [](Rng &) { return ode::euler<St>(); }, TABREF(euler));
    run<St>("rk4" + sfx, 150, Plain(), [](Rng &) { return ode::runge_kutta4<St>(); }, TABREF(rk4));
    run<St>("rk4-classic" + sfx, 150, Plain(), [](Rng &) { return ode::runge_kutta4_classic<St>(); }, TABREF(rk4));
    run<St>("ck54" + sfx, 200, Err(), [](Rng &) { return ode::runge_kutta_cash_karp54<St>(); }, TABREF(ck54));
    run<St>("ck54-classic" + sfx, 200, Err(), [](Rng &) { return ode::runge_kutta_cash_karp54_classic<St>(); }, TABREF(ck54));
    run<St>("dopri5" + sfx, 300, Fsal(), [](Rng &) { return ode::runge_kutta_dopri5<St>(); }, TABREF(dopri5), true);
    run<St>("rkf78" + sfx, 200, Err(), [](Rng &) { return ode::runge_kutta_fehlberg78<St>(); }, TABREF(rkf78));
    run<St>("modified-midpoint" + sfx, 200, Plain(), [](Rng &r) { int m = r.range(2, 13); ode::modified_midpoint<St> s(r.coin() ? m : 2); s.set_steps(m); return s; }, [](auto &s, const T::Rough &p, const R::V &x, R::LD t, R::LD h) { return R::midpoint(s.steps(), T::RF{&p}, x, t, h); });
}
static R::Out exref(int order, const T::Rough &p, const R::V &x, R::LD t, R::LD h) { std::vector<int> q = R::even(order / 2); auto Tb = R::neville(q, T::RF{&p}, x, t, h); int k = order / 2 - 1; R::Out o; o.x = Tb[k][k]; o.err = o.x; for (size_t i = 0; i < x.size(); ++i) o.err[i] -= Tb[k][k - 1][i];
    for (int m : q) { auto w = R::midpoint(m, T::RF{&p}, x, t, h); for (size_t i = m == q[0] ? 0 : 1; i < w.X.size(); ++i) { o.X.push_back(w.X[i]); o.T.push_back(w.T[i]); o.K.push_back(w.K[i]); } } return o; }
template <int O> void extra() { run<vec>(H::cat("extrapolation-", O), 120, Err(), [](Rng &) { return ode::extrapolation_stepper<O, vec>(); }, [](auto &, const T::Rough &p, const R::V &x, R::LD t, R::LD h) { return exref(O, p, x, t, h); }); }
static void mmdense() {
    H::group("modified-midpoint-dense", 200, [](Rng &r) { int n = r.range(1, 5); T::Rough p = T::Rough::make(r, n); typedef ode::modified_midpoint_dense_out<vec> S; int m = 2 * r.range(1, 10); S s(r.coin() ? m : 2); H::describe("dim=", n, " m=", m); H::nontrivial();
        for (int k = 0; k < 3; ++k) { if (k) m = 2 * r.range(1, 10); s.set_steps(m); HCHECK(s.steps() == m, "steps", s.steps()); vec x(n), d(n), out(n, NAN), mp(n, NAN); for (auto &v : x) v = r.uni(-3, 3); double t = r.uni(-20, 20), dt = r.sign() * r.logu(1e-3, 1.2); p.rhs<double>(x, d, t); S::deriv_table_type tab(m); for (auto &w : tab) w.m_v.assign(n, NAN); T::Log l; l.rec = true; T::RSys sy(p, l); vec x0 = x, d0 = d; s.do_step(sy, x, d, t, out, dt, mp, tab);
            auto o = R::midpoint(m, T::RF{&p}, T::lv(x0), t, dt); double sc = 1; for (auto &v : o.K) for (auto y : v) sc = std::max(sc, std::fabs(double(y))); double tol = 4e-13 * sc * (1 + std::fabs(t)); HCHECK(x == x0 && d == d0, "input-modified", ""); HCHECK(T::diff(out, o.x, n) <= tol, "state", T::diff(out, o.x, n)); HCHECK(T::diff(mp, o.X[m / 2], n) <= tol, "midpoint-state", T::diff(mp, o.X[m / 2], n)); for (int i = 0; i < m; ++i) HCHECK(T::diff(tab[i].m_v, o.K[i + 1], n) <= 50 * tol, "derivative-table", "entry ", i, " of ", m, " differs by ", T::diff(tab[i].m_v, o.K[i + 1], n)); std::string w = T::match_log(l, o, 1, tol); HCHECK(w.empty(), "evaluations", w); H::count("steps"); } });
}
int main(int a, char **v) {
    H::init(a, v, "erk");
#if PART == 0
    named<vec>(""); named<arr>("-array");
#elif PART == 1
    Gen<1>::all(60); Gen<2>::all(60); Gen<3>::all(60); Gen<4>::all(60); Gen<5>::all(60); Gen<6>::all(60); Gen<7>::all(60);
#elif PART == 2
    Gen<8>::all(60); Gen<9>::all(60); Gen<10>::all(60); Gen<11>::all(60); Gen<12>::all(60); Gen<13>::all(60);
#elif PART == 4
    extra<4>(); extra<6>(); extra<8>(); extra<10>(); mmdense();
#else
    Gen<1>::errs(60); Gen<2>::errs(60); Gen<3>::errs(60); Gen<4>::errs(60); Gen<5>::errs(60); Gen<6>::errs(60); Gen<13>::errs(60);
#endif
    return H::finish();
}
