// C11 (and C10, C18): Adams methods against the textbook formulas. PART 0: AB/ABM 1..4, 1: AB/ABM 5..8, 2: adaptive/controlled ABM
#include "ref2.hpp"
#include <functional>
#include <boost/ref.hpp>
#include <boost/range/iterator_range.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_moulton.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/generation/make_controlled.hpp>
#include <boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/generation/generation_runge_kutta_cash_karp54.hpp>
namespace ode = boost::numeric::odeint; using H::Rng; typedef std::vector<double> vec; using R::LD; using R::V;
// weights w_j with  integral_a^b f(t)dt = sum w_j f(t_j)  for polynomials through the nodes
static V weights(const V &nodes, LD a, LD b) {
    V w; size_t n = nodes.size();
    for (size_t j = 0; j < n; ++j) { V c(1, 1); LD den = 1; for (size_t k = 0; k < n; ++k) if (k != j) { den *= nodes[j] - nodes[k]; V d(c.size() + 1, 0); for (size_t i = 0; i < c.size(); ++i) { d[i + 1] += c[i]; d[i] -= (nodes[k] - a) * c[i]; } c = d; } LD s = 0, h = b - a, hp = h; for (size_t i = 0; i < c.size(); ++i) { s += c[i] * hp / (i + 1); hp *= h; } // nodes shifted to a
        LD den2 = 1; for (size_t k = 0; k < n; ++k) if (k != j) den2 *= nodes[j] - nodes[k]; w.push_back(s / den2); }
    return w;
}
static V wts(int from, int n) { V nd; for (int j = 0; j < n; ++j) nd.push_back(from - j); return weights(nd, 0, 1); } // nodes from, from-1, ...
static double scale(const std::vector<V> &K, double ts = 1) { LD s = 1; for (auto &v : K) for (auto y : v) s = std::max(s, std::fabs(y) / LD(ts)); return double(s); }
static vec accurate(const T::Rough &p, const vec &x, double t, double dt) { R::Tab q = R::rkf78(); V y = T::lv(x); int N = 40; for (int k = 0; k < N; ++k) y = R::step(q, T::RF{&p}, y, LD(t) + k * LD(dt) / N, LD(dt) / N).x; return vec(y.begin(), y.end()); }
struct Any { template <class S, class Y> static void step(S &s, Y &sy, int form, vec &x, double t, double dt) {
    switch (form) { case 0: s.do_step(sy, x, t, dt); break; case 1: s.do_step(std::ref(sy), x, t, dt); break; case 2: { vec o(x.size(), NAN), b = x; s.do_step(sy, x, t, o, dt); HCHECK(x == b, "input-modified", ""); x = o; break; } default: { vec big(x.size() + 4, 7.5); std::copy(x.begin(), x.end(), big.begin() + 2); s.do_step(boost::ref(sy), boost::make_iterator_range(big.begin() + 2, big.end() - 2), t, dt); HCHECK(big[0] == 7.5 && big[1] == 7.5 && big[big.size() - 1] == 7.5 && big[big.size() - 2] == 7.5, "wrote-outside-range", ""); x.assign(big.begin() + 2, big.end() - 2); } } } };
template <int K, bool ABM> struct Sel { typedef ode::adams_bashforth<K, vec> type; }; template <int K> struct Sel<K, true> { typedef ode::adams_bashforth_moulton<K, vec> type; };
template <int K, bool ABM> void fixed() {
    std::string nm = (ABM ? "abm" : "ab") + std::to_string(K);
    H::group(nm, 120, [nm](Rng &r) {
        typedef typename Sel<K, ABM>::type S; int n = r.range(1, 4); T::Rough p = T::Rough::make(r, n); p.ts = r.coin(0.3) ? r.logu(1e-3, 1e5) : 1; double ts = p.ts, t = (r.coin(0.2) ? 0 : r.uni(-20, 20)) / ts, dt = r.sign() * r.logu(1e-3, 0.15) / ts; vec x(n); for (auto &v : x) v = r.uni(-2, 2); int form = r.range(0, 3), init = r.range(0, 3); bool mixed = r.coin(0.2); H::describe(nm, " form=", form, " init=", init, " dim=", n, " t=", t, " dt=", dt); H::nontrivial();
        S s; T::Log l; T::RSys sy(p, l); std::vector<V> K_; T::RF f{&p}; double tol0 = 4e-13 * (1 + ts * std::fabs(t)); long done = 0; // K_: derivatives newest first
        auto startup = [&](const vec &x0, const vec &x1, double t0, int ord) { vec e = accurate(p, x0, t0, dt); double d = T::diff(x1, e, n), lim = 60 * std::pow(std::fabs(dt) * ts * 8, ord + 1) + 1e-12; H::maxi("startup-" + nm, d / lim); HCHECK(d <= lim, "start-up-step", "error ", d, " limit ", lim); };
        const int SO = ABM ? 4 : K % 2 == 0 ? std::max(K, 4) : std::max(K + 1, 4); // order of the default starting stepper: classical Runge-Kutta for ABM, extrapolation for AB
        auto starter = [&](const V &y, LD tt) { if (ABM) return R::step(R::rk4(), f, y, tt, dt).x; auto Tb = R::neville(R::even(SO / 2), f, y, tt, dt); return Tb.back().back(); };
        if (K > 1 && init > 0) { // explicit initialisation: K-1 steps
            vec x0 = x; double t0 = t; V y = T::lv(x); LD tt = t; K_.clear(); if (init == 1) s.initialize(sy, x, t, dt); else if (init == 2) s.initialize(ode::runge_kutta4<vec>(), sy, x, t, dt); else { ode::euler<vec> e; s.initialize(std::ref(e), std::ref(sy), x, t, dt); }
            HCHECK(std::fabs(t - (t0 + (K - 1) * dt)) <= 1e-12 * (1 / ts + std::fabs(t0)), "initialize-time", t, " expected ", t0 + (K - 1) * dt);
            for (int k = 0; k + 1 < K; ++k) { V d = f(y, tt); K_.insert(K_.begin(), d); if (init == 2) y = R::step(R::rk4(), f, y, tt, dt).x; else if (init == 3) y = R::step(R::euler(), f, y, tt, dt).x; else y = starter(y, tt); tt += dt; }
            double d = T::diff(x, y, n); H::maxi("initialize-" + nm, d); HCHECK(d <= 1e-11 * scale(K_, ts) * (1 + ts * std::fabs(t)), "initialize-state", "differs by ", d); done = K - 1;
        }
        int N = r.range(K, 2 * K + 6), rst = r.coin(0.3) ? r.range(1, N) : -1;
        for (int k = 0; k < N; ++k) {
            if (k == rst) { s.reset(); K_.clear(); done = 0; } double tt = t + k * dt; vec x0 = x; V d = f(T::lv(x0), tt); K_.insert(K_.begin(), d); if ((int)K_.size() > K) K_.pop_back(); long c0 = l.calls; Any::step(s, sy, mixed ? r.range(0, 3) : form, x, tt, dt); double sc = scale(K_, ts);
            if (done < K - 1) { startup(x0, x, tt, SO); double df = T::diff(x, starter(T::lv(x0), tt), n); HCHECK(df <= 1e-11 * sc * (1 + ts * std::fabs(t)), "start-up-formula", "differs from the starting method by ", df); ++done; H::count("start-up-steps"); }
            else { V w = wts(0, K), y = T::lv(x0); for (int j = 0; j < K; ++j) for (int i = 0; i < n; ++i) y[i] += dt * w[j] * K_[j][i]; if (ABM) { V dp = f(y, LD(tt) + dt), u = wts(1, K); y = T::lv(x0); for (int i = 0; i < n; ++i) y[i] += dt * u[0] * dp[i]; for (int j = 1; j < K; ++j) for (int i = 0; i < n; ++i) y[i] += dt * u[j] * K_[j - 1][i]; }
                double df = T::diff(x, y, n); H::maxi("dev-" + nm, df / sc); HREQUIRE(df <= 10 * tol0 * sc, "formula", "step ", k, " differs from the Adams formula by ", df); HCHECK(l.calls - c0 == (ABM ? 2 : 1), "evaluations", l.calls - c0); H::count("formula-steps"); }
        } });
    H::group("order-" + nm, 6, [nm](Rng &r) { typedef ode::adams_bashforth_moulton<K, V, LD> M0; typedef ode::extrapolation_stepper<(K + 1) / 2 * 2 < 4 ? 4 : (K + 1) / 2 * 2, V, LD> X; typedef ode::adams_bashforth_moulton<K, V, LD, V, LD, typename M0::algebra_type, typename M0::operations_type, ode::initially_resizer, X> M1; /* the default start-up is of order 4 */ typedef typename std::conditional<ABM, typename std::conditional<(K > 5), M1, M0>::type, ode::adams_bashforth<K, V, LD>>::type S; int n = r.range(2, 3); T::Prob p = T::Prob::make(r, n, 1.5, 0.3); double t0 = r.uni(-3, 3), L = r.sign() * r.uni(1.5, 2.5); H::describe(nm, " order dim=", n, " t0=", t0, " L=", L); H::nontrivial(); T::Log l; T::Sys sy(p, l); LD e[3]; for (int k = 0; k < 3; ++k) { int N = 60 << k; S s; V x = p.exact<LD>(t0); e[k] = 1e-19L; for (int i = 0; i < N; ++i) { s.do_step(sy, x, t0 + i * (LD(L) / N), LD(L) / N); e[k] = std::max<LD>(e[k], T::diff(x, p.exact<LD>(LD(t0) + (i + 1) * (LD(L) / N)), n)); } } double o = double(std::log2(e[0] / e[2])) / 2; H::maxi("order-deficit-" + nm, K - o); S s; HCHECK(s.order() == K, "declared-order", s.order()); if (e[2] > 1e-16L) HCHECK(o > K - 0.7, "order", "errors ", double(e[0]), " ", double(e[1]), " ", double(e[2]), " observed order ", o); });
}
template <int K> void am() { std::string nm = "am" + std::to_string(K); H::group(nm, 40, [nm](Rng &r) { // corrector alone with given history
    int n = r.range(1, 4); T::Rough p = T::Rough::make(r, n); double t = r.uni(-5, 5), dt = r.sign() * r.uni(0.01, 0.3); H::describe(nm, " dim=", n, " t=", t, " dt=", dt); H::nontrivial(); typename ode::adams_bashforth<K, vec>::step_storage_type buf; std::vector<V> hist; for (int j = 0; j < K; ++j) { vec d(n); for (auto &v : d) v = r.uni(-2, 2); buf[j].m_v = d; hist.push_back(T::lv(d)); } vec x(n), pr(n), o(n, NAN); for (auto &v : x) v = r.uni(-2, 2); for (auto &v : pr) v = r.uni(-2, 2); T::Log l; T::RSys sy(p, l); ode::adams_moulton<K, vec> s; V dp = T::RF{&p}(T::lv(pr), t), u = wts(1, K), y = T::lv(x); for (int i = 0; i < n; ++i) { y[i] += dt * u[0] * dp[i]; for (int j = 1; j < K; ++j) y[i] += dt * u[j] * hist[j - 1][i]; } int how = r.range(0, 3); vec x0 = x; switch (how) { case 0: s.do_step(sy, x, pr, t, dt, buf); o = x; break; case 1: s.do_step(sy, x, pr, t, o, dt, buf); break; case 2: s.do_step(sy, boost::make_iterator_range(x.begin(), x.end()), pr, t, dt, buf); o = x; break; default: s.do_step(sy, x, pr, t, boost::make_iterator_range(o.begin(), o.end()), dt, buf); } if (how % 2) HCHECK(x == x0, "input-modified", ""); double d = T::diff(o, y, n); HCHECK(d <= 1e-12, "formula", d); HCHECK(l.calls == 1, "evaluations", l.calls); }); }
template <int K> void adaptive() {
    std::string nm = "aabm" + std::to_string(K); typedef ode::adaptive_adams_bashforth_moulton<K, vec> S;
    H::group(nm, 120, [nm](Rng &r) {
        int n = r.range(1, 4); T::Rough p = T::Rough::make(r, n); p.ts = r.coin(0.5) ? r.logu(10, 1e5) : 1; double ts = p.ts, t = r.uni(-10, 10) / ts, dt = r.sign() * r.logu(1e-3, 0.1) / ts; vec x(n); for (auto &v : x) v = r.uni(-2, 2); bool vary = r.coin(0.7); int form = r.range(0, 3), init = r.range(0, 2); H::describe(nm, " form=", form, " init=", init, " vary=", vary, " dim=", n, " t=", t, " dt=", dt, " timescale=", ts); H::nontrivial(); S s; T::Log l; T::RSys sy(p, l); T::RF f{&p}; V nodes; std::vector<V> K_; int eo = 1, N = r.range(3, 3 * K + 5), rst = r.coin(0.3) ? r.range(1, N) : -1;
        auto model = [&](V x0, LD tt, LD h, V &err) { if (K_.empty()) { K_.push_back(f(x0, tt)); nodes.push_back(tt); } V nd(nodes.begin(), nodes.begin() + eo), w = weights(nd, tt, tt + h), y = x0; for (int j = 0; j < eo; ++j) for (size_t i = 0; i < y.size(); ++i) y[i] += w[j] * K_[j][i]; V pred = y, dp = f(y, tt + h); nd.insert(nd.begin(), tt + h); w = weights(nd, tt, tt + h); y = x0; for (size_t i = 0; i < y.size(); ++i) y[i] += w[0] * dp[i]; for (int j = 0; j < eo; ++j) for (size_t i = 0; i < y.size(); ++i) y[i] += w[j + 1] * K_[j][i]; err = y; for (size_t i = 0; i < y.size(); ++i) err[i] -= pred[i]; return y; };
        auto accept = [&](const V &y, LD t1) { K_.insert(K_.begin(), f(y, t1)); nodes.insert(nodes.begin(), t1); if (eo < K) ++eo; };
        if (init == 1) { double t0 = t; V y = T::lv(x), er; LD tt = t; s.initialize(sy, x, t, dt); for (int k = 0; k < K; ++k) { y = model(y, tt, LD(dt) / K, er); tt += LD(dt) / K; accept(y, tt); } double d = T::diff(x, y, n); HCHECK(d <= 1e-10 * scale(K_, ts), "initialize-state", d); HCHECK(std::fabs(t - (t0 + dt)) <= 1e-12 * (1 / ts + std::fabs(t)), "initialize-time", t - t0, " expected ", dt); }
        if (init == 2) { double t0 = t; V y = T::lv(x); LD tt = t; s.initialize(ode::runge_kutta4<vec>(), sy, x, t, dt); K_.push_back(f(y, tt)); nodes.push_back(tt); for (int k = 0; k < K; ++k) { y = R::step(R::rk4(), f, y, tt, LD(dt) / K).x; tt += LD(dt) / K; accept(y, tt); } eo = K; double d = T::diff(x, y, n); HCHECK(d <= 1e-11 * scale(K_, ts), "initialize-state", d); HCHECK(std::fabs(t - (t0 + dt)) <= 1e-12 * (1 / ts + std::fabs(t)), "initialize-time", t - t0); }
        for (int k = 0; k < N; ++k) {
            if (k == rst) { s.reset(); K_.clear(); nodes.clear(); eo = 1; } double h = vary ? dt * r.uni(0.6, 1.5) : dt; vec x0 = x, o(n, NAN), e(n, NAN); V er; V y = model(T::lv(x0), t, h, er); long c0 = l.calls; bool first = nodes.size() == 1;
            switch (form) { case 0: s.do_step(sy, x, t, h); break; case 1: s.do_step(sy, x, t, o, h); HCHECK(x == x0, "input-modified", ""); x = o; break; case 2: s.do_step(sy, x, t, h, e); break; default: s.do_step(sy, x, t, o, h, e); HCHECK(x == x0, "input-modified", ""); x = o; }
            double sc = scale(K_, ts), d = T::diff(x, y, n); H::maxi("dev-" + nm, d / sc); HREQUIRE(d <= 1e-9 * sc, "formula", "step ", k, " differs from the variable step Adams formula by ", d); if (form >= 2) { V m = er; for (auto &q : m) q = -q; double de = std::min(T::diff(e, er, n), T::diff(e, m, n)); HCHECK(de <= 1e-9 * sc, "error-estimate", "differs from corrector minus predictor by ", de); } HCHECK(l.calls - c0 == 2 + (first ? 1 : 0), "evaluations", l.calls - c0); t += h; accept(T::lv(x), t); H::count("formula-steps");
        } });
    H::group("order-" + nm, 6, [nm](Rng &r) { int n = r.range(2, 3); T::Prob p = T::Prob::make(r, n, 1.5, 0.3); double t0 = r.uni(-3, 3), L = r.sign() * r.uni(1.5, 2.5); bool vary = r.coin(); H::describe(nm, " order dim=", n, " t0=", t0, " L=", L, " vary=", vary); H::nontrivial(); T::Log l; T::Sys sy(p, l); double e[3]; for (int k = 0; k < 3; ++k) { int N = (K > 5 ? 40 : 60) << k; S s; vec x = p.exact(t0); double t = t0; e[k] = 1e-16; { ode::runge_kutta_fehlberg78<vec> rk; s.initialize(rk, sy, x, t, L / N); } for (int i = 1; i < N; ++i) { double h = L / N * (vary ? 1 + 0.25 * std::sin(6.2831853071795864 * i / N * 3) : 1); if (i == N - 1) h = t0 + L - t; s.do_step(sy, x, t, h); t += h; e[k] = std::max(e[k], T::diff(x, p.exact(t), n)); } } double o = std::log2(e[0] / e[1]); H::maxi("order-deficit-" + nm, K + 1 - o); S s; HCHECK(s.order() == K && s.stepper_order() == K + 1 && s.error_order() == K, "declared-order", s.order()); if (e[1] > (K > 5 ? 2e-11 : 1e-12)) HCHECK(o > K - 0.7, "order", "errors ", e[0], " ", e[1], " ", e[2], " observed order ", o); });
}
#if PART == 2
struct Spy { typedef decltype(ode::make_controlled(1.0, 1.0, ode::runge_kutta_cash_karp54<vec>())) C; C c; std::vector<std::pair<double, vec>> *pts; Spy(double eps, std::vector<std::pair<double, vec>> &p) : c(ode::make_controlled(eps, eps, ode::runge_kutta_cash_karp54<vec>())), pts(&p) {}
    template <class Y> ode::controlled_step_result try_step(Y y, vec &x, double &t, double &dt) { auto r = c.try_step(y, x, t, dt); if (r == ode::success) pts->push_back({t, x}); return r; } };
template <int K> void controlled() {
    std::string nm = "cabm" + std::to_string(K);
    H::group(nm, 50, [nm](Rng &r) { typedef ode::adaptive_adams_bashforth_moulton<K, vec> B; typedef ode::controlled_adams_bashforth_moulton<B> C; int n = r.range(2, 4); T::Prob p = T::Prob::make(r, n, 2.0, 0.2); double eps = r.logu(1e-9, 1e-5), dir = r.sign(), t0 = r.uni(-5, 5), t1 = t0 + dir * r.uni(2, 6), dt = dir * r.logu(1e-3, 0.2); int init = r.range(0, 2); H::describe(nm, " init=", init, " dim=", n, " eps=", eps, " dir=", dir, " dt=", dt); H::nontrivial(); C s(typename C::step_adjuster_type(eps, eps)); T::Log l; l.budget = 400000; T::Sys sy(p, l); vec x = p.exact(t0); double t = t0;
        if (init == 1) s.initialize(sy, x, t, dt); if (init == 2) { std::vector<std::pair<double, vec>> pts; Spy c(eps, pts); s.initialize_controlled(c, sy, x, t, dt); HCHECK(int(pts.size()) == K && pts.back().first == t && pts.back().second == x, "initialize-steps", pts.size(), " steps");
            V nd, y = T::lv(x); std::vector<V> ks; T::PF f{&p}; for (int k = K - 1; k >= 0; --k) { nd.push_back(pts[k].first); ks.push_back(f(T::lv(pts[k].second), pts[k].first)); } vec o(n), x0 = x; double tq = t, h = dt; while (s.try_step(sy, x, tq, o, dt) != ode::success) { HCHECK(x == x0 && tq == t, "rejection", ""); h = dt; } // first own step: variable step formula over the recorded points
            V w = weights(nd, tq - h, tq), pr = y, dp; for (int j = 0; j < K; ++j) for (int i = 0; i < n; ++i) pr[i] += w[j] * ks[j][i]; dp = f(pr, LD(t) + h); nd.insert(nd.begin(), LD(t) + h); nd[1] = t; w = weights(nd, t, LD(t) + h); for (int i = 0; i < n; ++i) { y[i] += w[0] * dp[i]; for (int j = 0; j < K; ++j) y[i] += w[j + 1] * ks[j][i]; }
            double d = T::diff(o, y, n); H::maxi("dev-init-" + nm, d); HCHECK(d <= (K > 5 ? 1e-8 : 1e-10) * scale(ks), "formula-after-initialize", "differs from the variable step Adams formula by ", d); x = o; t = tq; H::count("initialised-controlled"); }
        double d0 = T::diff(x, p.exact(t), n); HCHECK(d0 <= (init == 2 ? 1e3 * eps : 1e-2), "initialize-accuracy", d0); long acc = 0; if (init == 1 && d0 > 10 * eps) { x = p.exact(t); s.reset(); } double worst = 0;
        // every accepted step is the variable step predictor-corrector formula of some order <= K over the points accepted before
        std::vector<V> ks; V nd; T::PF f{&p}; bool track = init == 0 || (init == 1 && d0 > 10 * eps); if (track) { ks.push_back(f(T::lv(x), t)); nd.push_back(t); }
        while ((t1 - t) * dir > 0) { vec xb = x; double tb = t, h = dt; if (s.try_step(sy, x, t, dt) == ode::success) { ++acc;
                if (track) { double best = 1e300; for (int eo = 1; eo <= K && eo <= int(nd.size()); ++eo) { V q(nd.begin(), nd.begin() + eo), pr = T::lv(xb), y = pr, w = weights(q, tb, LD(tb) + h); for (int j = 0; j < eo; ++j) for (int i = 0; i < n; ++i) pr[i] += w[j] * ks[j][i]; V dp = f(pr, LD(tb) + h); q.insert(q.begin(), LD(tb) + h); w = weights(q, tb, LD(tb) + h); for (int i = 0; i < n; ++i) { y[i] += w[0] * dp[i]; for (int j = 0; j < eo; ++j) y[i] += w[j + 1] * ks[j][i]; } best = std::min(best, T::diff(x, y, n)); }
                    H::maxi("dev-" + nm, best / scale(ks)); HREQUIRE(best <= (K > 5 ? 1e-8 : 1e-10) * scale(ks), "formula", "accepted step at ", tb, " is no Adams step of any order, closest differs by ", best); nd.insert(nd.begin(), t); ks.insert(ks.begin(), f(T::lv(x), t)); if (int(nd.size()) > K + 1) { nd.pop_back(); ks.pop_back(); } H::count("controlled-formula-steps"); } }
            else HCHECK(x == xb && t == tb && std::fabs(dt) < std::fabs(h) && dt * h > 0, "rejection", "");
            double q = T::diff(x, p.exact(t), n) / (eps * (1 + std::fabs(t - t0)) * p.amp(t - t0)); worst = std::max(worst, q); } H::maxi("acc-" + nm, worst); H::maxi("steps-" + nm, acc); HCHECK(worst <= 300, "accuracy", "error ", worst, " times the tolerance"); H::count("accepted", acc); H::count("rhs", l.calls); });
}
#endif
int main(int c, char **v) {
    H::init(c, v, "multi");
#if PART == 0
    fixed<1, false>(); fixed<2, false>(); fixed<3, false>(); fixed<4, false>(); fixed<1, true>(); fixed<2, true>(); fixed<3, true>(); fixed<4, true>(); am<1>(); am<2>(); am<3>(); am<4>();
#elif PART == 1
    fixed<5, false>(); fixed<6, false>(); fixed<7, false>(); fixed<8, false>(); fixed<5, true>(); fixed<6, true>(); fixed<7, true>(); fixed<8, true>(); am<5>(); am<6>(); am<7>(); am<8>();
#else
    adaptive<1>(); adaptive<2>(); adaptive<3>(); adaptive<4>(); adaptive<5>(); adaptive<6>(); adaptive<8>(); controlled<3>(); controlled<5>(); controlled<8>();
#endif
    return H::finish();
}
