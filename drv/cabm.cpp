// C11/C07: the decisions of the controlled Adams stepper. A nondeterministic long double model of error estimate, step size filter and
// order selection follows every attempt; comparisons that round-off could turn are taken both ways, each observation removes the
// model states that contradict it. No state left: violation.
#include "ref2.hpp"
#include <functional>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/generation/make_controlled.hpp>
#include <boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp>
namespace ode = boost::numeric::odeint; using H::Rng; typedef std::vector<double> vec; using R::LD; using R::V;
static V weights(const V &nodes, LD a, LD b) { V w; size_t n = nodes.size(); for (size_t j = 0; j < n; ++j) { V c(1, 1); for (size_t k = 0; k < n; ++k) if (k != j) { V d(c.size() + 1, 0); for (size_t i = 0; i < c.size(); ++i) { d[i + 1] += c[i]; d[i] -= (nodes[k] - a) * c[i]; } c = d; } LD s = 0, h = b - a, hp = h, den = 1; for (size_t i = 0; i < c.size(); ++i) { s += c[i] * hp / (i + 1); hp *= h; } for (size_t k = 0; k < n; ++k) if (k != j) den *= nodes[j] - nodes[k]; w.push_back(s / den); } return w; }
// smooth problem, optionally with an oscillation that sets in on the way (then lower orders are better)
struct Osc { T::Prob p; double t0 = 0, dir = 1, am = 0, om = 0; mutable long calls = 0; template <class X, class D, class U> void operator()(const X &x, D &d, U t) const { using std::sin; using std::exp; if (++calls > 400000) throw H::Budget(); p.rhs<U>(x, d, t); if (am) { U v = U(am) * sin(U(om) * (t - U(t0))) / (U(1) + exp(-U(dir) * (t - U(t0)) * U(20))); for (auto &y : d) y += v; } } V operator()(const V &x, LD t) const { V d(x.size()); (*this)(x, d, t); return d; } };
struct Coef { LD b[3], a[2]; };
struct St { int eo = 1, init = 0; std::vector<std::pair<V, V>> e; V dt; bool operator==(const St &o) const { return eo == o.eo && init == o.init && e == o.e && dt == o.dt; } }; // e: lower and upper bounds of the scaled errors of the accepted steps, newest first
static V gammas(int n) { V g(1, 1); for (int m = 1; m <= n; ++m) { LD s = 0; for (int j = 0; j < m; ++j) s -= g[j] / (m + 1 - j); g.push_back(s); } return g; }
// order decision with comparisons answered by a mask where they are too close
struct Dec { unsigned mask; int used = 0; bool less(LD a, LD da, LD b, LD db) { if (std::fabs(a - b) > da + db) return a < b; return (mask >> used++) & 1; } };
template <int K> static std::set<int> next_orders(int eo, int init, const V &E, const V &N) { std::set<int> out; int amb = 0; for (unsigned m = 0; m < (1u << amb) || m == 0; ++m) { Dec d{m}; int o = eo;
        auto E_ = [&](int k) { return E[k]; }; bool m1 = eo >= 2 && d.less(E_(eo - 1), N[eo - 1], E_(eo), N[eo]); int res;
        if (eo == 2 && d.less(E_(1), N[1], 0.5L * E_(2), N[2])) o = 1; else if (eo > 2 && d.less(E_(eo - 2), N[eo - 2], E_(eo), N[eo]) && m1) o = eo - 1;
        if (o == eo - 1) res = o; else { res = eo; bool has = eo < K && eo < init; LD ep = has ? E_(eo + 1) : 0, np = has ? N[eo + 1] : 0; if (eo > 1 && m1 && has && ep + np > 0 && (ep > np || d.less(0, 0, 0, 0) )) res = eo - 1; else if (eo < K && d.less(ep, np, (0.5L - 0.25L * eo / K) * E_(eo), N[eo])) res = eo + 1; }
        out.insert(res); amb = std::max(amb, std::min(d.used, 6)); } return out; }
template <int K, size_t TYPE> void run(const char *nm, Coef C) {
    H::group(nm, 60, [nm, C](Rng &r) {
        typedef ode::adaptive_adams_bashforth_moulton<K, vec> B; typedef typename B::algebra_type AL; typedef ode::detail::pid_step_adjuster<vec, double, vec, double, AL, typename B::operations_type, TYPE> A; typedef ode::controlled_adams_bashforth_moulton<B, A> S;
        int n = r.range(1, 4); T::Prob p = T::Prob::make(r, n, r.coin(0.3) ? 4.0 : 2.0, 0.3); double ea = r.logu(1e-9, 1e-3), er = r.coin(0.2) ? 0 : ea * r.logu(0.1, 10), dtmax = r.coin(0.6) ? 1.0 : r.logu(0.02, 3); double dir = r.sign(), t = r.coin(0.2) ? 0 : r.uni(-5, 5), dt = dir * r.logu(1e-4, 0.5); S s{A(ea, er, dtmax)}; vec x = p.exact(t); if (r.coin(0.4)) for (auto &v : x) v += r.uni(-0.5, 0.5); Osc f; f.p = p; double noise = 4e-16; if (r.coin(0.6)) { f.t0 = t + dir * r.uni(0.1, 3); f.dir = dir; f.am = r.logu(0.1, 20); f.om = r.logu(3, 100); noise *= 1 + f.om * 6; } std::reference_wrapper<Osc> sy(f); H::describe(nm, " dim=", n, " eps=", ea, ",", er, " dtmax=", dtmax, " t=", t, " dt=", dt, " osc=", f.am, ",", f.om); H::nontrivial();
        std::vector<St> st(1); V nd; std::vector<V> ks; int steps = 0; const V G = gammas(K + 2); LD fm = 0; V Pm(K + 3, 0), Pn(K + 3, 0); // magnitudes and round-off bounds of the differences at the last accepted point
        int stop = r.range(10, 80), rst = r.coin(0.3) ? r.range(1, stop) : -1;
        for (int k = 0; k < stop; ++k) {
            if (k == rst) { s.reset(); st.assign(1, St()); nd.clear(); ks.clear(); steps = 0; H::count("resets"); if (r.coin()) dt = dir * r.logu(1e-4, 0.3); } else if (r.coin(0.03)) { dt *= r.uni(0.3, 1.5); H::count("steps-changed-outside"); }
            if (nd.empty()) { nd.push_back(t); ks.push_back(f(T::lv(x), t)); }
            vec x0 = x; double tb = t, h = dt; bool ok; if (r.coin()) ok = s.try_step(sy, x, t, dt) == ode::success; else { vec o(n, NAN), in = x; ok = s.try_step(sy, x, t, o, dt) == ode::success; HREQUIRE(in == x, "input-changed", "attempt ", k); if (ok) x = o; }
            for (auto &v : ks) for (auto y : v) fm = std::max(fm, std::fabs(y)); if (steps == 0) { std::fill(Pm.begin(), Pm.end(), 1 + fm); std::fill(Pn.begin(), Pn.end(), noise * (1 + fm)); }
            V Qn(K + 3, 0); { LD dl = 1e-15L * (1 + std::fabs(tb / h)), be = 1; Qn[0] = noise * (1 + fm); for (int i = 1; i < K + 3; ++i) { Qn[i] = Qn[i - 1] + std::fabs(be) * (Pn[i - 1] + (i > 1 ? dl : 2e-16L) * Pm[i - 1]) + 4e-16L * (Pm[i - 1]); if (i < int(nd.size())) be *= (LD(tb) + h - nd[i - 1]) / (nd[0] - nd[i]); } }
            H::count(ok ? "accepted" : "rejected");
            HREQUIRE(ok ? t == tb + h : (t == tb && x == x0 && std::fabs(dt) < std::fabs(h) && dt * h >= 0), "attempt", ok ? "time " : "rejected attempt changed state, time or step: ", t);
            std::vector<St> nx; bool formula = false, verdict = false; double wlo = 0, whi = 0, best = 1e300; int eos = 0; const double tol = (K > 5 ? 1e-8 : 1e-10) * (1 + double(fm)); V knew; V ndn; std::vector<V> ksn; if (ok) { knew = f(T::lv(x), t); ndn = nd; ksn = ks; ndn.insert(ndn.begin(), t); ksn.insert(ksn.begin(), knew); if (int(ndn.size()) > K + 2) { ndn.pop_back(); ksn.pop_back(); } }
            // modified divided differences at the new point
            V E(K + 3, 0), N(K + 3, 0); int init = std::min(steps + 1, K); if (ok) { std::vector<V> dd = ksn; int top = std::min<int>(ndn.size() - 1, K + 1); for (int q = 0; q <= top; ++q) { if (q) for (size_t j = 0; j + q < ndn.size(); ++j) for (int i = 0; i < n; ++i) dd[j][i] = (dd[j][i] - dd[j + 1][i]) / (ndn[j] - ndn[j + q]); LD pr = 1, m = 0; for (int i = 1; i <= q; ++i) pr *= ndn[0] - ndn[i]; for (int i = 0; i < n; ++i) m = std::max(m, std::fabs(pr * dd[0][i])); E[q] = m * std::fabs(G[q]); N[q] = std::fabs(G[q]) * 2 * Qn[q] + 2e-3L * E[q]; } }
            for (const St &c : st) { int eo = c.eo; if (eo > int(nd.size())) continue; ++eos; V q(nd.begin(), nd.begin() + eo), pr = T::lv(x0), y = pr, w = weights(q, tb, LD(tb) + h); for (int j = 0; j < eo; ++j) for (int i = 0; i < n; ++i) pr[i] += w[j] * ks[j][i]; V dp = f(pr, LD(tb) + h); q.insert(q.begin(), LD(tb) + h); w = weights(q, tb, LD(tb) + h); for (int i = 0; i < n; ++i) { y[i] += w[0] * dp[i]; for (int j = 0; j < eo; ++j) y[i] += w[j + 1] * ks[j][i]; }
                if (ok) { double d = T::diff(x, y, n); best = std::min(best, d); if (!(d <= tol + 20 * std::fabs(h) * double(Qn[eo]))) continue; } formula = true;
                V lo(n), hi(n), co; LD fl = 0, fh = 0; for (int i = 0; i < n; ++i) { LD sc = ea + er * (std::fabs(y[i]) + std::fabs(h) * std::fabs(dp[i])), e = std::fabs(y[i] - pr[i]), nz = std::fabs(h) * 2 * Qn[eo] + 1e-9L * e; lo[i] = std::max<LD>(0, e - nz) / sc; hi[i] = (e + nz) / sc;
                    LD a = lo[i], b = hi[i]; int k1 = eo + 1; if (c.init >= 2) { auto P = [&](LD v, LD ex) { return ex == 0 ? 1 : std::pow(v, ex); }; LD va = 1, vb = 1; for (int m = 0; m < 3; ++m) { LD u = m == 0 ? lo[i] : c.e[m - 1].first[i], z = m == 0 ? hi[i] : c.e[m - 1].second[i]; if (C.b[m] >= 0) { va *= P(u, C.b[m] / k1); vb *= P(z, C.b[m] / k1); } else { va *= P(z, C.b[m] / k1); vb *= u > 0 ? P(u, C.b[m] / k1) : 1e300L; } } LD d = P(std::fabs(h / c.dt[0]), C.a[0] / k1) * P(std::fabs(c.dt[0] / c.dt[1]), C.a[1] / k1); a = va * d; b = vb * d; } else { a = std::pow(a, 0.7L / k1); b = std::pow(b, 0.7L / k1); } fl = std::max(fl, a); fh = std::max(fh, b); }
                auto rat = [&](LD nrm) { LD v = nrm > 0 ? 1 + std::atan(1 / nrm - 1) : 1 + std::acos(-1.0L) / 2; if (std::fabs(v * h) >= std::fabs(LD(dtmax))) v = std::fabs(LD(dtmax) / h); return v; }; LD rl = rat(fh), rh = rat(fl);
                if (!(ok ? rh >= 0.9L - 1e-9L : rl < 0.9L + 1e-9L)) { continue; } verdict = true; double obs = dt / h; wlo = double(rl); whi = double(rh); if (!(obs >= rl * (1 - 1e-7L) - 1e-12L && obs <= rh * (1 + 1e-7L))) continue; if (rh - rl < 1e-6L * rh) { H::count("sharp-ratios"); }
                St z = c; if (!ok) { z.init = 0; nx.push_back(z); } else { z.init = std::min(c.init + 1, 5); z.e.insert(z.e.begin(), {lo, hi}); z.dt.insert(z.dt.begin(), h); if (z.e.size() > 2) { z.e.pop_back(); z.dt.pop_back(); } for (int o : next_orders<K>(eo, init, E, N)) { z.eo = o; nx.push_back(z); } } }
            HREQUIRE(formula, "formula", "attempt ", k, " at ", tb, " is no Adams step of the order selected (", st.size(), " candidates, first ", st[0].eo, "), closest differs by ", best);
            HREQUIRE(verdict, "verdict", "attempt ", k, " at ", tb, " step ", h, " order ", st[0].eo, ok ? " accepted" : " rejected", " against the error estimate");
            HREQUIRE(!nx.empty(), "proposed-step", "attempt ", k, " order ", st[0].eo, ": step ", h, " -> ", dt, " ratio ", dt / h, " expected ", wlo, " .. ", whi);
            std::vector<St> u; for (auto &z : nx) if (std::find(u.begin(), u.end(), z) == u.end()) u.push_back(z); H::maxi("candidates", u.size()); if (u.size() == 1 && st.size() == 1) H::count(u[0].eo > st[0].eo ? "order-raised" : u[0].eo < st[0].eo ? "order-lowered" : "order-kept"); H::maxi("order", u[0].eo); st = u; if (st.size() > 60) { H::count("given-up"); return; } if (ok) { nd = ndn; ks = ksn; ++steps; Pn = Qn; for (int q = 0; q < K + 3; ++q) Pm[q] = std::fabs(G[std::min(q, K + 2)]) > 0 ? E[q] / std::fabs(G[std::min(q, K + 2)]) : 0; } } });
}
template <size_t TYPE> Coef co() { ode::detail::pid_step_adjuster_coefficients<TYPE> c; return Coef{{c[0], c[1], c[2]}, {c[3], c[4]}}; }
int main(int c, char **v) { H::init(c, v, "cabm"); using namespace ode::detail; const Coef D{{1 / 6.0L, 2 / 6.0L, 0}, {0, 0}};
    run<1, H211PI>("controlled-abm1", D); run<2, H211PI>("controlled-abm2", D); run<3, H211PI>("controlled-abm3", D); run<4, H211PI>("controlled-abm4", D); run<5, H211PI>("controlled-abm5", D); run<6, H211PI>("controlled-abm6", D); run<8, H211PI>("controlled-abm8", D);
    run<4, BASIC>("filter-basic", co<BASIC>()); run<4, H0211>("filter-h0211", co<H0211>()); run<4, H211b>("filter-h211b", co<H211b>()); run<4, H0312>("filter-h0312", co<H0312>()); run<4, H312PID>("filter-h312pid", co<H312PID>()); run<4, H0321>("filter-h0321", co<H0321>()); run<4, H321>("filter-h321", co<H321>());
    return H::finish(); }
