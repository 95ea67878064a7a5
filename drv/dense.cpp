// C08 (C14, C17, C18 partly): dense output steppers. PART 0: dense euler and dopri5, 1: rosenbrock4, 2: Bulirsch-Stoer
#include "zoo.hpp"
#include "ref2.hpp"
#include <array>
#include <deque>
#include <boost/range/iterator_range.hpp>
#include <boost/numeric/ublas/vector_proxy.hpp>
namespace ode = boost::numeric::odeint; using H::Rng; using R::LD; using R::V; using Z::vec; using Z::uvec;
// published continuous extension of Dormand-Prince 5 (Hairer, Norsett, Wanner I, II.6) from the stage derivatives
static V dopri_dense(const R::Out &o, const V &x, LD h, LD th) {
    const LD b[7] = {35 / 384.L, 0, 500 / 1113.L, 125 / 192.L, -2187 / 6784.L, 11 / 84.L, 0};
    LD X[7] = {5 * (2558722523.L - 31403016.L * th) / 11282082432.L, 0, 100 * (882725551.L - 15701508.L * th) / 32700410799.L, 25 * (443332067.L - 31403016.L * th) / 1880347072.L, 32805 * (23143187.L - 3489224.L * th) / 199316789632.L, 55 * (29972135.L - 7076736.L * th) / 822651844.L, 10 * (7414447.L - 829305.L * th) / 29380423.L};
    const LD sg[7] = {-1, 0, 1, -1, 1, -1, 1}; LD A = th * th * (3 - 2 * th), B = th * th * (th - 1), C = th * th * (th - 1) * (th - 1), D = th * (th - 1) * (th - 1);
    V y = x; for (int j = 0; j < 7; ++j) { LD w = A * b[j] + sg[j] * C * X[j] + (j == 0 ? D : 0) + (j == 6 ? B : 0); for (size_t i = 0; i < x.size(); ++i) y[i] += h * w * o.K[j][i]; }
    return y;
}
struct Cfg { double ea, er, h0; bool exact_dt; };
// value of an interpolation query into a container of the given kind
template <class S, class St> vec query(const S &cs, const St &, double t, int n, int kind, std::false_type) {
    S &s = const_cast<S &>(cs);
    if (kind == 1) { std::deque<double> d(n, NAN); s.calc_state(t, d); return vec(d.begin(), d.end()); }
    if (kind == 2) { vec big(n + 2, 7.5); auto rg = boost::make_iterator_range(big.begin() + 1, big.begin() + 1 + n); const auto &crg = rg; if (t > cs.current_time() - 0.5 * (cs.current_time() - cs.previous_time())) s.calc_state(t, rg); else s.calc_state(t, crg); HCHECK(big[0] == 7.5 && big[n + 1] == 7.5, "query-out-of-range", "elements next to the given range were modified"); return vec(big.begin() + 1, big.begin() + 1 + n); }
    vec v(n, NAN); s.calc_state(t, v); return v;
}
template <class S, class St> vec query(const S &cs, const St &, double t, int n, int kind, std::true_type) {
    S &s = const_cast<S &>(cs); uvec u(n);
    if (kind) { // a part of a larger vector, or a range
        uvec big(n + 2, 7.5); vec o(n); if (kind == 1) { boost::numeric::ublas::vector_range<uvec> vr(big, boost::numeric::ublas::range(1, n + 1)); s.calc_state(t, vr); } else { auto rg = boost::make_iterator_range(big.begin() + 1, big.begin() + 1 + n); const auto &crg = rg; s.calc_state(t, crg); }
        HCHECK(big[0] == 7.5 && big[n + 1] == 7.5, "query-out-of-range", "elements next to the given range were modified"); for (int i = 0; i < n; ++i) o[i] = big[i + 1]; return o; }
    for (int i = 0; i < n; ++i) u[i] = NAN; s.calc_state(t, u); vec v(n); for (int i = 0; i < n; ++i) v[i] = u[i]; return v; }
template <class X> vec tov(const X &x, int n) { vec v(n); for (int i = 0; i < n; ++i) v[i] = x[i]; return v; }

// ref(prev state, t, h, theta) -> reference interpolant, or empty vector when only accuracy is judged
template <class Tag, class Mk, class RefF> void run(const std::string &nm, int cases, Mk mk, RefF ref, bool adaptive, double endtol, double acctol, bool refs = true) {
    H::group(nm, cases, [&](Rng &r) {
        int n = r.range(2, 5); T::Prob p = T::Prob::make(r, n, 2.5, 0.4); double eps = r.logu(1e-10, 1e-4), dir = r.sign(), t0 = r.coin(0.2) ? 0 : r.uni(-30, 30), dt0 = dir * (r.coin(0.2) ? r.uni(0.5, 2) : r.logu(1e-4, 0.3)); if (!adaptive) dt0 = dir * r.logu(1e-3, 0.2);
        int steps = r.range(2, 14); bool byref = r.coin(0.3); double off = r.coin(0.3) ? r.uni(-0.5, 0.5) : 0; H::describe(nm, " dim=", n, " eps=", eps, " t0=", t0, " dt0=", dt0, " steps=", steps, " ref=", byref, " off=", off); H::nontrivial();
        T::Log l, l2; l.rec = true; auto sy = Tag::system(p, l); auto sy2 = Tag::system(p, l2); typedef decltype(mk(eps)) SS; std::unique_ptr<SS> ps(new SS(mk(eps))), pq(new SS(mk(eps)));
#define s (*ps)
#define quiet (*pq)
        vec x0 = p.exact(t0); for (auto &v : x0) v += off; auto ini = Tag::make(x0);
        s.initialize(ini, t0, dt0); quiet.initialize(ini, t0, dt0); HCHECK(s.current_time() == t0 && s.current_time_step() == dt0 && tov(s.current_state(), n) == x0, "initialize", "state, time and step are not the given ones"); HCHECK(tov(ini, n) == x0, "input-modified", "");
        double te = t0; vec xe = x0; typedef typename std::is_same<typename Tag::state, uvec>::type IU; double tstart = t0; vec xstart = x0; long taken = 0;
        for (int k = 0; k < steps; ++k) {
            if (r.coin(0.08) && k) { // restart somewhere else (or at the current point with another step)
                bool here = r.coin(); if (!here) { te = r.uni(-30, 30); xe = p.exact(te); for (auto &v : xe) v += off; } bool flip = !here && r.coin(0.3); if (flip) dir = -dir; double d = dir * r.logu(1e-3, 0.2); tstart = te; xstart = xe; if (here && r.coin()) s.initialize(s.current_state(), s.current_time(), d); else s.initialize(Tag::make(xe), te, d); if (std::is_same<Tag, Z::SysI>::value) pq.reset(new SS(s)); /* the Rosenbrock controller keeps its error history */ else pq.reset(new SS(mk(eps))); quiet.initialize(Tag::make(xe), te, d); // a fresh stepper must behave the same
                HCHECK(s.current_time() == te && s.current_time_step() == d && tov(s.current_state(), n) == xe, "re-initialize", "state, time and step are not the given ones"); taken = 0; H::count("re-initialised");
            }
            double dtn = s.current_time_step(); l.e.clear(); std::pair<double, double> q = byref ? s.do_step(boost::ref(sy)) : s.do_step(sy); ++taken; double a = q.first, b = q.second, h = b - a;
            HREQUIRE(a == te && s.previous_time() == a && s.current_time() == b, "gap", "step [", a, ",", b, "] after ", te, ", reported ", s.previous_time(), " ", s.current_time()); vec xp = tov(s.previous_state(), n), xc = tov(s.current_state(), n); HREQUIRE(xp == xe, "gap-state", "the step does not start at the previous end");
            HREQUIRE(h * dir > 0 && s.current_time_step() * dir > 0, "direction", "h=", h); double far = 0; for (auto &e : l.e) far = std::max(far, std::fabs(double(e.t) - a)); HCHECK(!adaptive || std::fabs(far - std::fabs(dtn)) <= 1e-12 * (std::fabs(dtn) + std::fabs(a) + 1e-3), "current-time-step", "announced ", dtn, " tried ", far); HCHECK(std::fabs(h) <= std::fabs(dtn) + 1e-12 * (1 + std::fabs(a)), "step-larger-than-announced", h, " ", dtn); if (!adaptive) HCHECK(std::fabs(h - dt0) <= 1e-13 * (1 + std::fabs(a)) || taken < k + 1, "constant-step", h);
            if (std::fabs(h) < std::fabs(dtn) * (1 - 1e-9)) H::count("steps-with-rejection");
            quiet.do_step(sy2); HREQUIRE(T::diff(xc, tov(quiet.current_state(), n), n) <= 1e-12 && std::fabs(quiet.current_time() - b) <= 1e-13 * (1 + std::fabs(b)), "queries-alter-stepper", "differs from an unqueried stepper by ", T::diff(xc, tov(quiet.current_state(), n), n));
            // interpolation
            int m = r.range(0, 6); std::vector<double> ths; for (int i = 0; i < m; ++i) ths.push_back(r.coin(0.15) ? 0.0 : r.coin(0.15) ? 1.0 : r.coin(0.1) ? r.uni(0, 1e-6) : r.u01()); std::vector<vec> got;
            for (int rep = 0; rep < 2; ++rep) for (int ii = 0; ii < m; ++ii) {
                int i = rep ? m - 1 - ii : ii; double th = ths[i], tq = th == 0 ? a : th == 1 ? b : a + th * h; vec v = query(s, ini, tq, n, r.range(0, 2), IU()); if (rep) { HCHECK(T::diff(v, got[i], n) <= 1e-13 * (1 + T::maxabs(v)), "query-order-dependent", "th=", th, " ", T::diff(v, got[i], n)); continue; } got.push_back(v);
                double tol = 2e-12 * (1 + std::fabs(tq)) * (1 + T::maxabs(v)); LD thl = (LD(tq) - a) / (LD(b) - a); V w = ref(p, xp, a, h, thl);
                if (!w.empty()) { double d = T::diff(v, w, n); H::maxi("interpolant-dev-" + nm, d / tol); HREQUIRE(d <= tol, "interpolant", "at theta=", th, " of the step [", a, ",", b, "] differs from the published interpolant by ", d); }
                if (th == 0) { double d = T::diff(v, xp, n) / (endtol > 0 ? endtol * eps * (1 + T::maxabs(xp) + std::fabs(h) * 10) + 1e-12 : tol); H::maxi("end0-" + nm, d); HCHECK(d <= 1, "left-end", "interpolant differs from the stored state, ratio ", d); }
                if (th == 1) { double d = T::diff(v, xc, n) / (endtol > 0 ? endtol * eps * (1 + T::maxabs(xc) + std::fabs(h) * 10) + 1e-12 : tol); H::maxi("end1-" + nm, d); HCHECK(d <= 1, "right-end", "interpolant differs from the stored state, ratio ", d); }
                if (off == 0 && acctol > 0 && tstart == t0) { double d = T::diff(v, p.exact(tq), n) / (eps * (1 + taken) * p.amp(tq - tstart) * (1 + T::maxabs(v)) + 1e-12); H::maxi("acc-" + nm, d); HCHECK(d <= acctol, "interpolation-accuracy", "error ", d, " times the tolerance at theta=", th); }
                H::count("queries");
            }
            HCHECK(tov(s.current_state(), n) == xc && tov(s.previous_state(), n) == xp && s.current_time() == b && s.previous_time() == a, "query-modifies", "stored states or times changed by queries");
            if (adaptive && off == 0 && acctol > 0) { double d = T::diff(xc, p.exact(b), n) / (eps * (1 + taken) * p.amp(b - tstart) * (1 + T::maxabs(xc)) + 1e-12); H::maxi("acc-state-" + nm, d); if (tstart == t0) HCHECK(d <= acctol, "accuracy", d); }
            te = b; xe = xc; H::count("steps");
            if (r.coin(0.1)) { auto c = s; vec v = query(c, ini, a + 0.37 * h, n, 0, IU()), u = query(s, ini, a + 0.37 * h, n, 0, IU()); HCHECK(v == u, "copy-interpolates-differently", ""); if (r.coin()) { ps.reset(new SS(c)); H::count("continued-with-copy"); } }
        } });
#undef s
#undef quiet
}
int main(int c, char **v) {
    H::init(c, v, "dense");
#if PART == 0
    auto refE = [](const T::Prob &p, const vec &x, double t, double h, LD th) { V y = T::lv(x), k = T::PF{&p}(y, t); for (size_t i = 0; i < y.size(); ++i) y[i] += h * th * k[i]; return y; };
    auto refD = [](const T::Prob &p, const vec &x, double t, double h, LD th) { V y = T::lv(x); return dopri_dense(R::step(R::dopri5(), T::PF{&p}, y, t, h), y, h, th); };
    run<Z::SysE>("d-euler", 250, [](double) { return ode::dense_output_runge_kutta<ode::euler<vec>>(); }, refE, false, 0, 0);
    run<Z::SysE>("d-dopri5", 500, [](double e) { return ode::make_dense_output(e, e, ode::runge_kutta_dopri5<vec>()); }, refD, true, 0, 60);
    run<Z::SysE>("d-dopri5-direct", 150, [](double e) { typedef ode::controlled_runge_kutta<ode::runge_kutta_dopri5<vec>> C; return ode::dense_output_runge_kutta<C>(C(ode::default_error_checker<double, ode::range_algebra, ode::default_operations>(e, e))); }, refD, true, 0, 60);
    H::group("dopri5-interpolation-order", 40, [&](Rng &r) { int n = 2; T::Prob p = T::Prob::make(r, n, 2, 0.3); double t0 = r.uni(-5, 5), dir = r.sign(); H::describe("t0=", t0, " dir=", dir); H::nontrivial(); LD e[2]; for (int k = 0; k < 2; ++k) { double h = dir * (0.2 / (1 << (2 * k))); V x = p.exact<LD>(t0); auto o = R::step(R::dopri5(), T::PF{&p}, x, t0, h); LD m = 0; ode::runge_kutta_dopri5<V, LD> s; V xo(n), d0(n), d1(n); T::Log l; T::Sys sy(p, l); sy(x, d0, LD(t0)); s.do_step(sy, x, d0, LD(t0), xo, d1, LD(h)); for (int q = 1; q < 16; ++q) { V y(n); s.calc_state(LD(t0) + q * LD(h) / 16, y, x, d0, LD(t0), xo, d1, LD(t0) + h); m = std::max<LD>(m, T::diff(y, p.exact<LD>(LD(t0) + q * LD(h) / 16), n)); } e[k] = m; } double o = double(std::log2(e[0] / e[1])) / 2; H::maxi("order-deficit", 5 - o); HCHECK(o > 3.5, "interpolation-order", "local order ", o); });
#elif PART == 1
    auto refR = [](const T::Prob &p, const vec &x, double t, double h, LD th) { return R::rodas(T::PF{&p}, T::PJ{&p}, T::lv(x), t, h).dense(LD(t) + th * h); };
    run<Z::SysI>("d-ros", 400, [](double e) { return ode::make_dense_output(e, e, ode::rosenbrock4<double>()); }, refR, true, 0, 100);
    run<Z::SysI>("d-ros-direct", 150, [](double e) { typedef ode::rosenbrock4_controller<ode::rosenbrock4<double>> C; return ode::rosenbrock4_dense_output<C>(C(e, e)); }, refR, true, 0, 100);
#else
    auto none = [](const T::Prob &, const vec &, double, double, LD) { return V(); };
    run<Z::SysE>("d-bs", 400, [](double e) { return ode::bulirsch_stoer_dense_out<vec>(e, e, 1, 1, 0.0, true); }, none, true, 10, 20);
    // with control of the interpolation, the interpolant meets the tolerance (statistics over many steps: the estimate is not a bound)
    H::group("d-bs-interpolation-quality", 12, [&](Rng &r) { int n = 2; bool fine = r.coin(); double lo = fine ? 1e-9 : 1e-5, hi = fine ? 1e-5 : 1e-2; H::describe("tolerances ", lo, " to ", hi); H::nontrivial(); std::vector<double> L, Rr;
        for (int c = 0; c < 120; ++c) { T::Prob p = T::Prob::make(r, n, 2.5, 0.4); double eps = r.logu(lo, hi), dir = r.sign(), t0 = r.uni(-5, 5); ode::bulirsch_stoer_dense_out<vec> s(eps, eps, 1.0, 0.0, 0.0, true); T::Log l; T::Sys sy(p, l); s.initialize(p.exact(t0), t0, dir * r.logu(1e-2, 1.0));
            for (int k = 0; k < 15; ++k) { vec xp = s.current_state(); s.do_step(sy); vec a(n), b(n); s.calc_state(s.previous_time(), a); s.calc_state(s.current_time(), b); double m = 0, q = 0; for (int i = 0; i < n; ++i) { double w = eps + eps * std::fabs(xp[i]); m = std::max(m, std::fabs(a[i] - xp[i]) / w); q = std::max(q, std::fabs(b[i] - s.current_state()[i]) / w); } L.push_back(m); Rr.push_back(q); } }
        std::sort(L.begin(), L.end()); std::sort(Rr.begin(), Rr.end()); size_t z = L.size(); H::maxi(fine ? "fine-left-99" : "coarse-left-99", L[z * 99 / 100]); H::maxi(fine ? "fine-right-99" : "coarse-right-99", Rr[z * 99 / 100]); H::maxi(fine ? "fine-left-50" : "coarse-left-50", L[z / 2]); H::count("steps", z);
        HCHECK(L[z / 2] <= (fine ? 0.02 : 0.12) && L[z * 9 / 10] <= (fine ? 0.15 : 2) && L[z * 99 / 100] <= (fine ? 1.2 : 12) && Rr[z * 99 / 100] <= (fine ? 0.8 : 4), "interpolation-control", "mismatch at the left end in tolerances: median ", L[z / 2], ", 90% ", L[z * 9 / 10], ", 99% ", L[z * 99 / 100], "; right end 99% ", Rr[z * 99 / 100]); });
    run<Z::SysE>("d-bs-nocontrol", 300, [](double e) { return ode::bulirsch_stoer_dense_out<vec>(e, e, 1, 0); }, none, true, 1e3, 1e3);
#endif
    return H::finish();
}
