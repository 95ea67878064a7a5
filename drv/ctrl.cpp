// C07/C10: every attempt of a controlled stepper against a model of the method and its controller, in all call forms.
// PART 0: explicit, 1: FSAL, 2: Rosenbrock, Bulirsch-Stoer, Adams; 3: user-defined checker/adjuster
#include "zoo.hpp"
#include "ref2.hpp"
#include <boost/numeric/odeint/stepper/explicit_error_generic_rk.hpp>
#include <functional>
using namespace Z; using H::Rng; using R::LD;
struct St { std::vector<double> x, out, d, dn; double t, dt; }; // what a try works on
static bool near(double a, LD b, double rel) { return std::fabs(LD(a) - b) <= rel * (std::fabs(b) + 1e-300L); }

// default_step_adjuster as documented
static LD shrink(LD err, int eo) { return std::max(0.9L * std::pow(err, -1.0L / (eo - 1)), 0.2L); }
static LD growth(LD err, int so) { return 0.9L * std::pow(std::max(std::pow(5.0L, -so), err), -1.0L / so); }
struct Verdict { bool must_ok, must_fail; LD lo, hi; }; // proposals between lo and hi (signed like dt, magnitudes)

// the comparison common to all
struct Before { std::vector<double> x; double t, dt; };
static void basic(const char *nm, const Before &b, const St &s, bool ok, bool inplace, double maxdt) {
    H::count(ok ? "accepted" : "rejected");
    if (!ok) { HCHECK(s.t == b.t, "rejected-time", nm, " changed t by ", s.t - b.t); HCHECK(s.x == b.x, "rejected-state", nm, " changed the state by ", T::diff(s.x, b.x, b.x.size())); HCHECK(std::fabs(s.dt) < std::fabs(b.dt), "rejected-step-not-smaller", nm, ": ", b.dt, " -> ", s.dt); }
    else { HCHECK(s.t == b.t + b.dt, "accepted-time", nm, ": t=", b.t, " dt=", b.dt, " gives ", s.t); if (!inplace) HCHECK(s.x == b.x, "input-modified", nm); }
    HCHECK(s.dt != 0 && (s.dt > 0) == (b.dt > 0) && std::isfinite(s.dt), "step-direction", nm, ": ", b.dt, " -> ", s.dt);
    if (maxdt != 0) HCHECK(std::fabs(s.dt) <= std::fabs(maxdt) * (1 + 1e-15), "above-max-dt", nm, ": proposes ", s.dt, " max_dt=", maxdt);
}
struct Cfg { R::Tol q; double maxdt; int form, eo, so; };
static Cfg mkcfg(Rng &r, double dir, int forms) {
    Cfg c; c.q.ea = r.coin(0.1) ? 0.0 : r.logu(1e-8, 1e-2); c.q.er = r.coin(0.2) ? 0.0 : r.logu(1e-8, 1e-2); if (c.q.ea == 0 && c.q.er == 0) c.q.ea = 1e-5;
    c.q.ax = r.coin(0.4) ? 1 : r.coin(0.3) ? 0 : r.uni(0.1, 3); c.q.ad = r.coin(0.4) ? 1 : r.coin(0.3) ? 0 : r.uni(0.1, 3); if (c.q.ea == 0) { c.q.ax = 1; }
    c.maxdt = r.coin(0.6) ? 0 : dir * r.logu(0.01, 0.5); c.form = r.range(0, forms - 1); return c;
}
// a monitored run of attempts.  attempt(St&) performs one; ref(x,t,dt) gives (state, relative error estimate, noise) of the method
template <class Att, class Ref, class Jump> void run(Rng &r, const char *nm, const Cfg &c, const T::Rough &p, double dir, bool inplace, Att attempt, Ref ref, Jump jump) {
    int n = p.n; St s; s.x.resize(n); for (auto &v : s.x) v = r.uni(-2, 2); s.t = r.uni(-5, 5); s.dt = dir * r.logu(1e-3, 1); int acc = 0, rej = 0;
    for (int k = 0; k < 40; ++k) {
        if (k && r.coin(0.08)) s.dt *= r.logu(0.3, 5); if (r.coin(0.04)) { for (auto &v : s.x) v = r.uni(-2, 2); s.t = r.uni(-5, 5); jump(); }
        if (std::fabs(s.dt) > 3) s.dt = dir * 3; if (std::fabs(s.dt) < 1e-6) break; Before b{s.x, s.t, s.dt}; s.d.assign(n, 0); p.rhs<double>(s.x, s.d, s.t); s.out.assign(n, NAN); s.dn.assign(n, NAN);
        std::vector<double> d0 = s.d; bool ok = attempt(s); basic(nm, b, s, ok, inplace, c.maxdt); (ok ? acc : rej)++;
        if (c.maxdt != 0 && std::fabs(b.dt) > std::fabs(c.maxdt) * (1 + 1e-14)) { HCHECK(!ok && near(s.dt, c.maxdt, 1e-15), "max-dt", nm, ": dt=", b.dt, " max_dt=", c.maxdt, " result ", ok, " next ", s.dt); continue; }
        LD sc = 1; auto o = ref(T::lv(b.x), LD(b.t), LD(b.dt), sc); LD err = o.second, lowtol = c.q.ea; for (int i = 0; i < n; ++i) lowtol = std::max<LD>(c.q.ea, 1e-9L); (void)lowtol;
        // noise of the double evaluation of the error estimate, relative to its weight
        LD w = 1e300; for (int i = 0; i < n; ++i) w = std::min<LD>(w, c.q.ea + c.q.er * (c.q.ax * std::fabs(b.x[i]) + c.q.ad * std::fabs(b.dt) * std::fabs(d0[i]))); LD noise = 3e-14L * sc * (1 + std::fabs(b.t)) / w + 1e-9L * err;
        if (noise > 0.05L) { H::count("skipped-noisy"); if (ok && !inplace) s.x = s.out; continue; }
        LD e0 = std::max<LD>(err - noise, 0), e1 = err + noise; if (e0 > 1) HCHECK(!ok, "accepted-above-tolerance", nm, " accepted a step with relative error ", double(err)); else if (e1 <= 1) HCHECK(ok, "rejected-within-tolerance", nm, " rejected a step with relative error ", double(err));
        LD lo, hi; if (!ok) { lo = shrink(e1, c.eo); hi = shrink(std::max<LD>(e0, 1e-30L), c.eo); } else { LD g0 = growth(e0, c.so), g1 = growth(e1, c.so); if (e1 < 0.5L) { lo = g1; hi = g0; } else if (e0 >= 0.5L) lo = hi = 1; else { lo = std::min<LD>(1, g1); hi = std::max<LD>(1, g0); } }
        LD mag = std::fabs(LD(s.dt)) , bd = std::fabs(LD(b.dt)); LD L = lo * bd, U = hi * bd; if (c.maxdt != 0 && (!ok || e0 < 0.5L)) { L = std::min<LD>(L, std::fabs(c.maxdt)); U = std::min<LD>(U, std::fabs(c.maxdt)); }
        HCHECK(mag >= L * (1 - 1e-7L) && mag <= U * (1 + 1e-7L), ok ? "growth-rule" : "shrink-rule", nm, ": error ", double(err), " dt ", b.dt, " -> ", s.dt, " expected factor in [", double(lo), ",", double(hi), "]");
        if (ok) { const std::vector<double> &xr = inplace ? s.x : s.out; double df = T::diff(xr, o.first, n); H::maxi(std::string("dev-") + nm, df / double(sc)); HCHECK(df <= 4e-13 * double(sc) * (1 + std::fabs(b.t)), "accepted-state", nm, " differs from the method by ", df); if (!inplace) s.x = s.out; }
        double mx = 0; for (double v : s.x) mx = std::max(mx, std::fabs(v)); if (!(mx < 1e3)) break;
    }
    H::nontrivial(acc > 0 && rej > 0); H::count("runs-with-both", acc > 0 && rej > 0);
}
static std::pair<R::V, LD> tabref(const R::Tab &q, const T::Rough &p, const R::Tol &tol, const R::V &x, LD t, LD h, LD &sc) { auto o = R::step(q, T::RF{&p}, x, t, h); for (auto &v : o.K) for (auto y : v) sc = std::max(sc, std::fabs(y)); return std::make_pair(o.x, R::rel_err(tol, o.err, x, o.K[0], h)); }
template <class S> ode::controlled_runge_kutta<S> mkc(const Cfg &c, const S &s) { typedef ode::controlled_runge_kutta<S> C; return C(typename C::error_checker_type(c.q.ea, c.q.er, c.q.ax, c.q.ad), typename C::step_adjuster_type(c.maxdt), s); }
template <class S> void expl(const std::string &nm, int cases, const R::Tab &tab, S proto) {
    H::group(nm, cases, [&](Rng &r) {
        int n = r.range(1, 5); T::Rough p = T::Rough::make(r, n); double dir = r.sign(); Cfg c = mkcfg(r, dir, 5); c.eo = proto.error_order(); c.so = proto.stepper_order();
        H::describe(nm, " form=", c.form, " dim=", n, " dir=", dir, " tol=", c.q.ea, ",", c.q.er, ",", c.q.ax, ",", c.q.ad, " max_dt=", c.maxdt); auto s = mkc(c, proto); T::Log l; T::RSys sy(p, l);
        run(r, nm.c_str(), c, p, dir, c.form != 2 && c.form != 3, [&](St &a) { int f = c.form == 4 ? r.range(0, 1) : c.form; switch (f) { case 0: return s.try_step(sy, a.x, a.t, a.dt) == ode::success; case 1: return s.try_step(std::ref(sy), a.x, a.d, a.t, a.dt) == ode::success; case 2: return s.try_step(boost::ref(sy), a.x, a.t, a.out, a.dt) == ode::success; default: return s.try_step(sy, a.x, a.d, a.t, a.out, a.dt) == ode::success; } },
            [&](const R::V &x, LD t, LD h, LD &sc) { return tabref(tab, p, c.q, x, t, h, sc); }, [] {}); });
}
#if PART == 3
struct Rec { std::vector<double> err, dt; std::vector<int> order, kind; };
struct UAdj { Rec *r; double lim; double decrease_step(double dt, double e, int o) { r->err.push_back(e); r->dt.push_back(dt); r->order.push_back(o); r->kind.push_back(0); return dt * 0.5; } double increase_step(double dt, double e, int o) { r->err.push_back(e); r->dt.push_back(dt); r->order.push_back(o); r->kind.push_back(1); return dt * 1.25; } bool check_step_size_limit(double dt) { return lim == 0 || std::fabs(dt) <= lim; } double get_max_dt() { return lim; } };
struct UChk { const double *w; template <class A, class X, class D, class E> double error(A &, const X &x, const D &d, E &e, double dt) const { double m = 0; for (size_t i = 0; i < x.size(); ++i) m += std::fabs(e[i]) * w[i]; return m; } };
template <class S, class Adj> void user(const std::string &nm, const R::Tab &tab, int eo, int so) {
    H::group(nm, 60, [&](Rng &r) { int n = r.range(1, 4); T::Rough p = T::Rough::make(r, n); double w[4]; for (double &v : w) v = r.logu(1e2, 1e6); Rec rec; UAdj adj{&rec, 0.0}; typedef ode::controlled_runge_kutta<S, UChk, Adj> C; C s(UChk{w}, Adj(adj)); H::describe(nm, " dim=", n, " w0=", w[0]); T::Log l; T::RSys sy(p, l);
        vec x(n); for (auto &v : x) v = r.uni(-2, 2); double t = r.uni(-3, 3), dt = r.logu(1e-3, 0.5); int a = 0, b = 0;
        for (int k = 0; k < 25; ++k) { vec x0 = x; double t0 = t, h0 = dt; auto o = R::step(tab, T::RF{&p}, T::lv(x0), t0, h0); LD e = 0, sc = 1; for (auto &v : o.K) for (auto y : v) sc = std::max(sc, std::fabs(y)); for (int i = 0; i < n; ++i) e += std::fabs(o.err[i]) * w[i]; bool ok = s.try_step(sy, x, t, dt) == ode::success; HREQUIRE((int)rec.err.size() == k + 1, "adjuster-calls", rec.err.size(), " after ", k + 1, " attempts"); double noise = 1e-12 * double(sc) * w[0] * 1e4 * n;
            HCHECK(std::fabs(rec.err[k] - double(e)) <= 1e-12 * double(sc) * 1e6 * n + 1e-9 * double(e), "error-passed-to-adjuster", rec.err[k], " expected ", double(e)); HCHECK(rec.dt[k] == h0, "dt-passed-to-adjuster", rec.dt[k], " vs ", h0); HCHECK(ok == !(rec.err[k] > 1.0), "decision", rec.err[k]); HCHECK(rec.kind[k] == int(ok), "adjuster-function", ok); HCHECK(rec.order[k] == (ok ? so : eo), "order-passed-to-adjuster", rec.order[k]); HCHECK(dt == h0 * (ok ? 1.25 : 0.5), "proposal-used", dt); if (!ok) HCHECK(x == x0 && t == t0, "rejected", ""); else HCHECK(T::diff(x, o.x, n) <= 1e-11 * double(sc) && t == t0 + h0, "accepted-state", ""); (ok ? a : b)++; if (std::fabs(t) > 50) break; }
        H::nontrivial(a && b); H::count("accepted", a); H::count("rejected", b); });
}
#endif
int main(int a, char **v) {
    H::init(a, v, "ctrl");
#if PART == 0
    expl("c-ck54", 120, R::ck54(), ode::runge_kutta_cash_karp54<vec>()); expl("c-ck54-classic", 80, R::ck54(), ode::runge_kutta_cash_karp54_classic<vec>()); expl("c-rkf78", 120, R::rkf78(), ode::runge_kutta_fehlberg78<vec>());
    { typedef ode::explicit_error_generic_rk<3, 3, 3, 2, vec> G; // Bogacki-Shampine without the FSAL stage: own embedded pair
        boost::array<double, 1> a1 = {{0.5}}; boost::array<double, 2> a2 = {{-1.0, 2.0}}; G::coef_b_type b = {{1 / 6.0, 4 / 6.0, 1 / 6.0}}, b2 = {{1 / 6.0 - 0.0, 4 / 6.0 - 1.0, 1 / 6.0}}; G::coef_c_type c = {{0, 0.5, 1}}; G g(boost::fusion::make_vector(a1, a2), b, b2, c);
        expl("c-generic3", 100, R::mk({{}, {0.5L}, {-1, 2}}, {1 / 6.L, 4 / 6.L, 1 / 6.L}, {0, 0.5L, 1}, {0, 1, 0}), g); }
#elif PART == 1
    static const R::Tab tab = R::dopri5();
    H::group("c-dopri5", 250, [&](Rng &r) {
        int n = r.range(1, 5); T::Rough p = T::Rough::make(r, n); double dir = r.sign(); Cfg c = mkcfg(r, dir, 5); c.eo = 4; c.so = 5; H::describe("c-dopri5 form=", c.form, " dim=", n, " dir=", dir, " tol=", c.q.ea, ",", c.q.er, ",", c.q.ax, ",", c.q.ad, " max_dt=", c.maxdt);
        auto s = mkc(c, ode::runge_kutta_dopri5<vec>()); T::Log l; T::RSys sy(p, l); bool own = c.form == 0 || c.form == 2 || c.form == 4;
        run(r, "c-dopri5", c, p, dir, c.form != 2 && c.form != 3, [&](St &a) {
            switch (c.form) { case 0: return s.try_step(sy, a.x, a.t, a.dt) == ode::success; case 1: { std::vector<double> d0 = a.d; double t0 = a.t; bool ok = s.try_step(std::ref(sy), a.x, a.d, a.t, a.dt) == ode::success; std::vector<double> e(p.n); p.rhs<double>(a.x, e, a.t); double df = T::diff(a.d, ok ? e : d0, p.n); HCHECK(df <= (ok ? 1e-12 * (1 + T::maxabs(e)) * (1 + std::fabs(a.t)) : 0.0), "derivative", "after ", ok ? "accepted" : "rejected", " attempt differs by ", df); return ok; }
                case 2: return s.try_step(boost::ref(sy), a.x, a.t, a.out, a.dt) == ode::success; case 3: { std::vector<double> d0 = a.d; bool ok = s.try_step(sy, a.x, a.d, a.t, a.out, a.dn, a.dt) == ode::success; HCHECK(a.d == d0, "derivative-input-modified", ""); if (ok) { std::vector<double> e(p.n); p.rhs<double>(a.out, e, a.t); double df = T::diff(a.dn, e, p.n); HCHECK(df <= 1e-12 * (1 + T::maxabs(e)) * (1 + std::fabs(a.t)), "derivative", "new derivative differs by ", df); } return ok; }
                default: { if (r.coin(0.2)) { if (r.coin()) s.reset(); else if (r.coin()) s.initialize(a.d); else s.initialize(sy, a.x, a.t); } return s.try_step(sy, a.x, a.t, a.dt) == ode::success; } } },
            [&](const R::V &x, LD t, LD h, LD &sc) { return tabref(tab, p, c.q, x, t, h, sc); }, [&] { if (own) s.reset(); }); });
#elif PART == 2
    H::group("rosenbrock4-controller", 250, [&](Rng &r) {
        int n = r.range(1, 4); T::Prob p = T::Prob::make(r, n, 2.0, 0.5); if (r.coin(0.3)) for (auto &v : p.l) v = std::fabs(v) * r.logu(1, 300); double dir = r.sign(); if (p.l[0] > 1) dir = 1; double ea = r.logu(1e-7, 1e-2), er = r.coin(0.2) ? 0 : r.logu(1e-7, 1e-2), maxdt = r.coin(0.6) ? 0 : dir * r.logu(0.02, 0.5); bool inp = r.coin(); H::describe("rosenbrock4 inplace=", inp, " dim=", n, " dir=", dir, " tol=", ea, ",", er, " max_dt=", maxdt, " l0=", p.l[0]);
        typedef ode::rosenbrock4_controller<ode::rosenbrock4<double>> C; C s = maxdt != 0 ? C(ea, er, maxdt) : C(ea, er); T::Log l; auto sy = SysI::system(p, l); uvec x(n), out(n); double t = r.uni(-5, 5), dt = dir * r.logu(1e-3, 1); for (int i = 0; i < n; ++i) x[i] = p.ex(i, t) + r.uni(-1, 1);
        bool first = true, lastrej = false; LD errold = 0, dtold = 0; int acc = 0, rej = 0;
        for (int k = 0; k < 40; ++k) {
            if (k && r.coin(0.05)) dt *= r.logu(0.5, 4); if (k && dtold != 0 && r.coin(k < 4 ? 0.3 : 0.03)) dt = double(dtold) * r.logu(0.3, 1.5); if (k && r.coin(k < 4 ? 0.3 : 0.06)) { double kick = r.logu(1e-3, k < 4 ? 80 : 5); for (auto &v : x) v += kick * r.uni(-1, 1); /* the caller may change the state between steps */ } Before b{std::vector<double>(x.begin(), x.end()), t, dt}; for (auto &v : out) v = NAN; bool ok = (inp ? s.try_step(sy, x, t, dt) : s.try_step(sy, x, t, out, dt)) == ode::success; St a; a.x.assign(x.begin(), x.end()); a.t = t; a.dt = dt; basic("rosenbrock4", b, a, ok, inp, maxdt); (ok ? acc : rej)++;
            if (maxdt != 0 && std::fabs(b.dt) > std::fabs(maxdt) * (1 + 1e-14)) { HCHECK(!ok && dt == maxdt, "max-dt", dt); continue; }
            auto o = R::rodas(T::PF{&p}, T::PJ{&p}, T::lv(b.x), b.t, b.dt); LD e = 0, w = 1e300, sc = 1; for (int i = 0; i < n; ++i) { LD sk = ea + er * std::max(std::fabs(o.x[i]), std::fabs(LD(b.x[i]))); w = std::min(w, sk); e += o.err[i] * o.err[i] / sk / sk; sc = std::max(sc, std::fabs(o.x[i])); } e = std::sqrt(e / n); LD noise = 3e-12L * sc * (1 + std::fabs(b.t)) / w + 1e-9L * e;
            if (noise > 0.02L) { H::count("skipped-noisy"); break; } if (e - noise > 1) HCHECK(!ok, "accepted-above-tolerance", "relative error ", double(e)); else if (e + noise <= 1) HCHECK(ok, "rejected-within-tolerance", "relative error ", double(e));
            auto model = [&](LD er_) { LD fac = std::max(1 / 6.0L, std::min<LD>(5, std::pow(std::max<LD>(er_, 0), 0.25L) / 0.9L)); LD dn = b.dt / fac; if (ok) { if (!first) { LD fp = (dtold / b.dt) * std::pow(er_ * er_ / errold, 0.25L) / 0.9L; fp = std::max(1 / 6.0L, std::min<LD>(5, fp)); fac = std::max(fac, fp); dn = b.dt / fac; } if (lastrej && std::fabs(dn) > std::fabs(b.dt)) dn = b.dt; if (maxdt != 0 && std::fabs(dn) > std::fabs(maxdt)) dn = maxdt; } return dn; };
            LD m1 = std::fabs(model(e + noise)), m2 = std::fabs(model(std::max<LD>(e - noise, 0))), mg = std::fabs(LD(dt)); HCHECK(mg >= std::min(m1, m2) * (1 - 1e-6L) && mg <= std::max(m1, m2) * (1 + 1e-6L), ok ? "growth-rule" : "shrink-rule", "error ", double(e), " dt ", b.dt, " -> ", dt, " expected ", double(m1));
            if (ok) { uvec &xr = inp ? x : out; double df = T::diff(xr, o.x, n); H::maxi("dev-rosenbrock4", df / double(sc)); HCHECK(df <= 1e-11 * double(sc) * (1 + std::fabs(b.t)), "accepted-state", "differs from the method by ", df); first = false; dtold = b.dt; errold = std::max<LD>(0.01L, e); lastrej = false; if (!inp) x = out; } else lastrej = true;
        } H::nontrivial(acc && rej); H::count("runs-with-both", acc && rej); });
    H::group("bulirsch-stoer", 300, [&](Rng &r) {
        int n = r.range(1, 4); T::Rough p = T::Rough::make(r, n); double dir = r.sign(); Cfg c = mkcfg(r, dir, 4); H::describe("bs form=", c.form, " dim=", n, " dir=", dir, " tol=", c.q.ea, ",", c.q.er, ",", c.q.ax, ",", c.q.ad, " max_dt=", c.maxdt); ode::bulirsch_stoer<vec> s(c.q.ea, c.q.er, c.q.ax, c.q.ad, c.maxdt); T::Log l; T::RSys sy(p, l); bool inp = c.form < 2;
        St a; a.x.resize(n); for (auto &v : a.x) v = r.uni(-2, 2); a.t = r.uni(-5, 5); a.dt = dir * r.logu(1e-3, 2); int acc = 0, rej = 0; const std::vector<int> seq = R::even(9);
        for (int k = 0; k < 25; ++k) {
            if (k && r.coin(0.1)) a.dt *= r.logu(0.3, 5); if (r.coin(0.05)) s.reset(); if (std::fabs(a.dt) > 3) a.dt = dir * 3; if (std::fabs(a.dt) < 1e-6) break; Before b{a.x, a.t, a.dt}; a.d.assign(n, 0); p.rhs<double>(a.x, a.d, a.t); a.out.assign(n, NAN); bool ok; vec d0 = a.d; long c0 = l.calls;
            switch (c.form) { case 0: ok = s.try_step(sy, a.x, a.t, a.dt) == ode::success; break; case 1: ok = s.try_step(std::ref(sy), a.x, a.d, a.t, a.dt) == ode::success; break; case 2: ok = s.try_step(boost::ref(sy), a.x, a.t, a.out, a.dt) == ode::success; break; default: ok = s.try_step(sy, a.x, a.d, a.t, a.out, a.dt) == ode::success; }
            basic("bs", b, a, ok, inp, c.maxdt); (ok ? acc : rej)++; HCHECK(a.d == d0, "derivative-input-modified", ""); HCHECK(l.calls - c0 <= 100, "work-limit", l.calls - c0, " evaluations in one attempt");
            if (c.maxdt != 0 && std::fabs(b.dt) > std::fabs(c.maxdt) * (1 + 1e-14)) { HCHECK(!ok && a.dt == c.maxdt, "max-dt", a.dt); continue; }
            HCHECK(std::fabs(a.dt / b.dt) <= 60 && (std::fabs(a.dt / b.dt) >= 0.02 / 4.0 / 3 || c.maxdt != 0), "step-factor", a.dt / b.dt);
            if (!ok) continue;
            auto Tb = R::neville(seq, T::RF{&p}, T::lv(b.x), b.t, b.dt); LD sc = 1; for (auto &w : Tb) for (auto y : w[0]) sc = std::max(sc, std::fabs(y)); std::vector<double> &xr = inp ? a.x : a.out; double best = 1e300; bool good = false; LD w = 1e300, minerr = 1e300; R::V dx = T::RF{&p}(T::lv(b.x), b.t); for (int i = 0; i < n; ++i) w = std::min<LD>(w, c.q.ea + c.q.er * (c.q.ax * std::fabs(b.x[i]) + c.q.ad * std::fabs(b.dt) * std::fabs(dx[i]))); LD noise = 1e-13L * sc * (1 + std::fabs(b.t)) / w;
            double tol = 4e-11 * double(sc) * (1 + std::fabs(b.t));
            for (int q = 1; q < 9; ++q) { double df = T::diff(xr, Tb[q][q], n); best = std::min(best, df); if (df <= tol) { R::V er(n); for (int i = 0; i < n; ++i) er[i] = Tb[q][q][i] - Tb[q][q - 1][i]; LD e = R::rel_err(c.q, er, T::lv(b.x), dx, b.dt); minerr = std::min(minerr, e); if (e <= 1 + noise) { good = true; H::count(H::cat("accepted-order-", q)); break; } } }
            HCHECK(best <= tol, "accepted-state", "is no extrapolation of midpoint results, closest differs by ", best); if (best <= tol) HCHECK(good, "accepted-above-tolerance", "relative error ", double(minerr)); H::maxi("dev-bs", best / double(sc)); if (!inp) a.x = a.out; double mx = 0; for (double v : a.x) mx = std::max(mx, std::fabs(v)); if (!(mx < 1e3)) break;
        } H::nontrivial(acc > 0); H::count("runs-with-both", acc && rej); });
    H::group("controlled-abm", 150, [&](Rng &r) {
        int n = r.range(1, 4); T::Prob p = T::Prob::make(r, n, 2.0, 0.3); double dir = r.sign(), ea = r.logu(1e-9, 1e-3), er = r.logu(1e-9, 1e-3), maxdt = r.coin() ? 1.0 : r.logu(0.02, 0.8); bool inp = r.coin(); H::describe("controlled-abm inplace=", inp, " dim=", n, " dir=", dir, " tol=", ea, ",", er, " max_dt=", maxdt); typedef ode::adaptive_adams_bashforth_moulton<5, vec> B; typedef ode::controlled_adams_bashforth_moulton<B> C; C s(C::step_adjuster_type(ea, er, maxdt)); T::Log l; T::Sys sy(p, l);
        double t = r.uni(-5, 5), dt = dir * std::min(maxdt, r.logu(1e-3, 1)); vec x = p.exact(t), out(n); int acc = 0, rej = 0;
        for (int k = 0; k < 60; ++k) { Before b{x, t, dt}; out.assign(n, NAN); bool ok = (inp ? s.try_step(sy, x, t, dt) : s.try_step(sy, x, t, out, dt)) == ode::success; St a; a.x = x; a.t = t; a.dt = dt; basic("controlled-abm", b, a, ok, inp, maxdt); (ok ? acc : rej)++; HCHECK(dt / b.dt <= 2.58, "step-factor", dt / b.dt);
            if (ok && !inp) x = out; if (std::fabs(dt) < 1e-9) break; }
        H::nontrivial(acc && rej); H::count("runs-with-both", acc && rej); });
#else
    user<ode::runge_kutta_cash_karp54<vec>, UAdj>("user-ck54", R::ck54(), 4, 5); user<ode::runge_kutta_dopri5<vec>, UAdj>("user-dopri5", R::dopri5(), 4, 5); user<ode::runge_kutta_fehlberg78<vec>, UAdj>("user-rkf78", R::rkf78(), 7, 8);
#endif
    return H::finish();
}
