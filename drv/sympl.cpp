// C13 (and C10, C24): symplectic steppers and velocity Verlet against independent drift/kick compositions
#include "ref2.hpp"
#include <array>
#include <deque>
#include <boost/ref.hpp>
#include <functional>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
namespace ode = boost::numeric::odeint; using H::Rng; typedef long double LD; typedef std::vector<double> vec; typedef std::vector<LD> lvec;
// H = T(p) + U(q), T = sum m_i p_i^2/2 + e_i (1-cos p_i), U = sum k_i q_i^2/2 + c_i (1-cos(q_i - q_{i+1}))
struct Ham { int n; std::vector<double> m, e, k, c; bool unit;
    static Ham make(Rng &r, int n, bool unit) { Ham h; h.n = n; h.unit = unit; for (int i = 0; i < n; ++i) { h.m.push_back(unit ? 1 : r.uni(0.5, 2)); h.e.push_back(unit ? 0 : r.uni(0, 0.5)); h.k.push_back(r.uni(0.3, 2)); h.c.push_back(r.uni(0, 0.5)); } return h; }
    template <class P, class D> void drift(const P &p, D &d) const { using std::sin; for (int i = 0; i < n; ++i) { auto v = p[i]; d[i] = m[i] * v + e[i] * sin(v); } }
    template <class Q, class D> void force(const Q &q, D &d) const { using std::sin; for (int i = 0; i < n; ++i) { int j = (i + 1) % n, h = (i + n - 1) % n; d[i] = -k[i] * q[i] - (n > 1 ? c[i] * sin(q[i] - q[j]) - c[h] * sin(q[h] - q[i]) : c[i] * sin(q[i])); } }
    template <class Q, class P> LD energy(const Q &q, const P &p) const { LD s = 0; for (int i = 0; i < n; ++i) { LD pi = p[i], qi = q[i]; s += m[i] * pi * pi / 2 + e[i] * (1 - std::cos(pi)) + k[i] * qi * qi / 2 + c[i] * (1 - std::cos(n > 1 ? qi - LD(q[(i + 1) % n]) : qi)); } return s; } };
struct Cnt { long d = 0, f = 0; };
struct Drift { const Ham *h; Cnt *c; template <class P, class D> void operator()(const P &p, D &d) const { ++c->d; h->drift(p, d); } };
struct Force { const Ham *h; Cnt *c; template <class Q, class D> void operator()(const Q &q, D &d) const { ++c->f; h->force(q, d); } };
struct Scheme { std::vector<LD> a, b; };
static Scheme s_euler() { return Scheme{{1}, {1}}; }
static Scheme s_sb3a() { LD a1 = 0.40518861839525227722L, a2 = -0.28714404081652408900L, a3 = 0.5L - a1 - a2, b1 = -3.0L / 73, b2 = 17.0L / 59, b3 = 1 - 2 * (b1 + b2); return Scheme{{a1, a2, a3, a3, a2, a1}, {b1, b2, b3, b2, b1, 0}}; }
static Scheme s_m4() { LD z = std::sqrt(7.0L / 8) / 3; return Scheme{{0.5L - z, -1.0L / 3 + z, 2.0L / 3, -1.0L / 3 + z, 0.5L - z}, {1, -0.5L, -0.5L, 1, 0}}; }
static void ref_step(const Scheme &s, const Ham &h, lvec &q, lvec &p, LD dt) { lvec d(h.n); for (size_t l = 0; l < s.a.size(); ++l) { h.drift(p, d); for (int i = 0; i < h.n; ++i) q[i] += s.a[l] * dt * d[i]; h.force(q, d); for (int i = 0; i < h.n; ++i) p[i] += s.b[l] * dt * d[i]; } }
template <class C> C mk(const vec &v) { C c(v.begin(), v.end()); return c; }
template <> std::array<double, 3> mk<std::array<double, 3>>(const vec &v) { std::array<double, 3> a; std::copy(v.begin(), v.end(), a.begin()); return a; }
template <class S, class Q, class P> void scheme(const std::string &nm, int cases, Scheme sc, int dim = 0) {
    H::group("scheme-" + nm, cases, [&](Rng &r) {
        int n = dim ? dim : r.range(1, 5); bool both = r.coin(); Ham h = Ham::make(r, n, !both); double dt = r.sign() * r.logu(1e-4, 0.8), t = r.uni(-20, 20); int form = r.range(0, 7), steps = r.range(1, 5); vec q0(n), p0(n); for (auto &v : q0) v = r.uni(-2, 2); for (auto &v : p0) v = r.uni(-2, 2);
        H::describe(nm, " form=", form, " drift=", both ? "function" : "momentum", " dim=", n, " dt=", dt, " steps=", steps); H::nontrivial(); S s; Cnt c; Drift D{&h, &c}; Force F{&h, &c}; auto sys = std::make_pair(D, F); std::pair<Q, P> x(mk<Q>(q0), mk<P>(p0)); lvec q(q0.begin(), q0.end()), p(p0.begin(), p0.end());
        for (int k = 0; k < steps; ++k) {
            Cnt c0 = c; std::pair<Q, P> before = x, out = x; for (auto &v : out.first) v = NAN; for (auto &v : out.second) v = NAN;
#define CALL(SYS) switch (form) { case 0: s.do_step(SYS, x, t, dt); break; case 1: s.do_step(SYS, x.first, x.second, t, dt); break; case 2: s.do_step(SYS, std::make_pair(std::ref(x.first), std::ref(x.second)), t, dt); break; case 3: { auto pr = std::make_pair(boost::ref(x.first), boost::ref(x.second)); s.do_step(SYS, pr, t, dt); break; } case 4: { s.do_step(SYS, x, t, out, dt); HCHECK(x == before, "input-modified", ""); x = out; break; } case 5: { auto pi = std::make_pair(std::ref(x.first), std::ref(x.second)); auto po = std::make_pair(std::ref(out.first), std::ref(out.second)); s.do_step(SYS, pi, t, po, dt); HCHECK(x == before, "input-modified", ""); x = out; break; }
            if (both) { CALL(sys) case 6: s.do_step(std::ref(sys), x, t, dt); break; default: s.do_step(std::make_pair(std::ref(D), boost::ref(F)), x, t, dt); } } else { CALL(F) case 6: s.do_step(std::ref(F), x, t, dt); break; default: s.do_step(boost::ref(F), x.first, x.second, t, dt); } }
            ref_step(sc, h, q, p, dt); double d = std::max(T::diff(x.first, q, n), T::diff(x.second, p, n)); H::maxi("dev-" + nm, d); HREQUIRE(d <= 2e-12 * (k + 1), "scheme", "step ", k, " differs from the published composition by ", d); HCHECK(c.f - c0.f <= (long)sc.b.size() && (both ? c.d - c0.d <= (long)sc.a.size() : c.d == 0), "evaluations", c.f - c0.f, "/", c.d - c0.d); t += dt; H::count("steps"); for (int i = 0; i < n; ++i) { q[i] = x.first[i]; p[i] = x.second[i]; }
        } });
}
template <class S> void structure(const std::string &nm, bool symmetric, int order) {
    if (symmetric) H::group("reversible-" + nm, 40, [&](Rng &r) { int n = r.range(1, 4); Ham h = Ham::make(r, n, false); Cnt c; auto sys = std::make_pair(Drift{&h, &c}, Force{&h, &c}); LD dt = r.sign() * r.uni(0.01, 0.3); int N = r.range(1, 200); H::describe(nm, " dim=", n, " dt=", double(dt), " N=", N); H::nontrivial(); std::pair<lvec, lvec> x; for (int i = 0; i < n; ++i) { x.first.push_back(r.uni(-1, 1)); x.second.push_back(r.uni(-1, 1)); } auto x0 = x; S s; for (int k = 0; k < N; ++k) s.do_step(sys, x, 0.0L, dt); for (int k = 0; k < N; ++k) s.do_step(sys, x, 0.0L, -dt); double d = std::max(T::diff(x.first, x0.first, n), T::diff(x.second, x0.second, n)); H::maxi("irreversibility-" + nm, d); HCHECK(d <= 1e-10, "reversibility", "returns with deviation ", d); H::count("steps", 2 * N); });
    H::group("symplectic-" + nm, 40, [&](Rng &r) { int n = r.range(1, 2); Ham h = Ham::make(r, n, false); Cnt c; auto sys = std::make_pair(Drift{&h, &c}, Force{&h, &c}); LD dt = r.sign() * r.uni(0.01, 0.4); int N = r.range(1, 20); H::describe(nm, " dim=", n, " dt=", double(dt), " N=", N); H::nontrivial(); lvec z0(2 * n); for (auto &v : z0) v = r.uni(-1, 1); auto map = [&](lvec z) { S s; std::pair<lvec, lvec> x(lvec(z.begin(), z.begin() + n), lvec(z.begin() + n, z.end())); for (int k = 0; k < N; ++k) s.do_step(sys, x, 0.0L, dt); z.clear(); z.insert(z.end(), x.first.begin(), x.first.end()); z.insert(z.end(), x.second.begin(), x.second.end()); return z; };
        std::vector<lvec> M(2 * n); LD e = 1e-5L; for (int j = 0; j < 2 * n; ++j) { lvec a = z0, b = z0, a2 = z0, b2 = z0; a[j] += e; b[j] -= e; a2[j] += 2 * e; b2[j] -= 2 * e; a = map(a); b = map(b); a2 = map(a2); b2 = map(b2); M[j].resize(2 * n); for (int i = 0; i < 2 * n; ++i) M[j][i] = (8 * (a[i] - b[i]) - (a2[i] - b2[i])) / (12 * e); } // M[j] = column j
        LD worst = 0; for (int i = 0; i < 2 * n; ++i) for (int j = 0; j < 2 * n; ++j) { LD w = 0; for (int k = 0; k < n; ++k) w += M[i][k] * M[j][k + n] - M[i][k + n] * M[j][k]; LD want = j == i + n ? 1 : i == j + n ? -1 : 0; worst = std::max(worst, std::fabs(w - want)); } H::maxi("asymplecticity-" + nm, worst); HCHECK(worst <= 1e-9L, "symplectic", "two-form changes by ", double(worst)); });
    H::group("energy-" + nm, 3, [&](Rng &r) { int n = r.range(1, 2); Ham h = Ham::make(r, n, true); Cnt c; Force sys{&h, &c}; double dt = r.sign() * r.uni(0.02, 0.1); long N = 60000; H::describe(nm, " dim=", n, " dt=", dt, " N=", N); H::nontrivial(); std::pair<lvec, lvec> x; for (int i = 0; i < n; ++i) { x.first.push_back(r.uni(-1, 1)); x.second.push_back(r.uni(-1, 1)); } LD e0 = h.energy(x.first, x.second), m1 = 0, m2 = 0; S s; for (long k = 0; k < N; ++k) { s.do_step(sys, x, 0.0L, LD(dt)); LD e = std::fabs(h.energy(x.first, x.second) - e0); if (k < N / 5) m1 = std::max(m1, e); else m2 = std::max(m2, e); } H::maxi("energy-growth-" + nm, double(m2 / m1)); HCHECK(m2 <= 1.6L * m1 + 1e-12L, "energy-drift", "energy error grows from ", double(m1), " to ", double(m2)); HCHECK(m1 < 0.2 * (1 + e0), "energy-error", double(m1)); H::count("steps", N); });
    H::group("order-" + nm, 20, [&](Rng &r) { int n = r.range(1, 3); Ham h = Ham::make(r, n, r.coin()); Cnt c; auto sys = std::make_pair(Drift{&h, &c}, Force{&h, &c}); H::describe(nm, " dim=", n, " k0=", h.k[0]); H::nontrivial(); std::pair<lvec, lvec> x0; for (int i = 0; i < n; ++i) { x0.first.push_back(r.uni(-1, 1)); x0.second.push_back(r.uni(-1, 1)); } LD L = r.sign() * r.uni(1, 2); auto go = [&](int N) { auto x = x0; S s; for (int k = 0; k < N; ++k) s.do_step(sys, x, 0.0L, L / N); return x; }; auto fine = go(3000); LD e[3]; int N0 = 24; for (int k = 0; k < 3; ++k) { auto y = go(N0 << k); e[k] = std::max(T::diff(y.first, fine.first, n), T::diff(y.second, fine.second, n)); } double o = double(std::log2(e[0] / e[2]) / 2); H::maxi("order-excess-" + nm, o - order); H::maxi("order-deficit-" + nm, order - o); S s; HCHECK(s.order() == order, "declared-order", s.order()); HCHECK(o > order - 0.35, "order", "errors ", double(e[0]), " ", double(e[1]), " ", double(e[2]), " observed order ", o); });
}
// velocity dependent, time dependent acceleration
struct Acc { const Ham *h; double w; long *calls; std::vector<double> *ts; template <class Q, class P, class A, class Tm> void operator()(const Q &q, const P &p, A &a, Tm t) const { using std::sin; ++*calls; if (ts) ts->push_back(double(t)); h->force(q, a); for (int i = 0; i < h->n; ++i) { typename std::decay<decltype(a[0])>::type v = w * sin(t + i); a[i] += v; } } };
int main(int c, char **v) {
    H::init(c, v, "sympl");
    typedef std::array<double, 3> arr; typedef std::deque<double> dq;
    scheme<ode::symplectic_euler<vec>, vec, vec>("euler", 200, s_euler()); scheme<ode::symplectic_rkn_sb3a_mclachlan<vec>, vec, vec>("sb3a", 200, s_sb3a()); scheme<ode::symplectic_rkn_sb3a_m4_mclachlan<vec>, vec, vec>("sb3a-m4", 200, s_m4());
    scheme<ode::symplectic_euler<arr>, arr, arr>("euler-array", 60, s_euler(), 3); scheme<ode::symplectic_rkn_sb3a_mclachlan<arr>, arr, arr>("sb3a-array", 60, s_sb3a(), 3); scheme<ode::symplectic_rkn_sb3a_m4_mclachlan<arr>, arr, arr>("sb3a-m4-array", 60, s_m4(), 3); scheme<ode::symplectic_rkn_sb3a_mclachlan<vec, dq>, vec, dq>("sb3a-mixed", 60, s_sb3a());
    structure<ode::symplectic_euler<lvec, lvec, LD>>("euler", false, 1); structure<ode::symplectic_rkn_sb3a_mclachlan<lvec, lvec, LD>>("sb3a", true, 4); structure<ode::symplectic_rkn_sb3a_m4_mclachlan<lvec, lvec, LD>>("sb3a-m4", true, 4);
    H::group("verlet-scheme", 300, [](Rng &r) {
        int n = r.range(1, 5); Ham h = Ham::make(r, n, true); double dt = r.sign() * r.logu(1e-4, 0.8), t = r.uni(-20, 20), w = r.coin(0.3) ? 0 : r.uni(-1, 1); int form = r.range(0, 5), steps = r.range(1, 9); vec q0(n), p0(n); for (auto &y : q0) y = r.uni(-2, 2); for (auto &y : p0) y = r.uni(-2, 2); H::describe("verlet form=", form, " dim=", n, " dt=", dt, " steps=", steps); H::nontrivial();
        long calls = 0, rc = 0; std::vector<double> ts; Acc A{&h, w, &calls, &ts}; Acc RA{&h, w, &rc, nullptr}; ode::velocity_verlet<vec> s; std::pair<vec, vec> x(q0, p0); vec a(n); int init = r.range(0, 2); if (form < 4) { if (init == 1) s.initialize(A, x.first, x.second, t); if (init == 2) { A(x.first, x.second, a, t); s.initialize(a); } HCHECK(s.is_initialized() == (init != 0), "is-initialized", init); } else A(x.first, x.second, a, t);
        lvec q(q0.begin(), q0.end()), p(p0.begin(), p0.end()), a0(n), a1(n);
        for (int k = 0; k < steps; ++k) {
            if (k && r.coin(0.25)) { // a new trajectory with the same stepper object
                for (auto &y : x.first) y = r.uni(-2, 2); for (auto &y : x.second) y = r.uni(-2, 2); t = r.uni(-20, 20); q.assign(x.first.begin(), x.first.end()); p.assign(x.second.begin(), x.second.end()); int in = r.range(0, 2); double tn = t + k * dt; if (form >= 4 || in == 2) A(x.first, x.second, a, tn); if (form < 4) { if (in == 0) s.reset(); else if (in == 1) s.initialize(A, x.first, x.second, tn); else s.initialize(a); } H::count("re-initialised"); }
            double tt = t + k * dt; if (form < 4 && r.coin(0.1)) s.reset(); bool was = s.is_initialized(); ts.clear(); vec qo(n, NAN), po(n, NAN), ao(n, NAN); auto b = x; vec ab = a;
            switch (form) { case 0: s.do_step(A, x, tt, dt); break; case 1: s.do_step(std::ref(A), x, tt, dt); break; case 2: s.do_step(A, std::make_pair(std::ref(x.first), std::ref(x.second)), tt, dt); break; case 3: { auto pr = std::make_pair(boost::ref(x.first), boost::ref(x.second)); s.do_step(boost::ref(A), pr, tt, dt); break; } default: s.do_step(A, x.first, x.second, a, qo, po, ao, tt, dt); HCHECK(x == b && a == ab, "input-modified", ""); x.first = qo; x.second = po; a = ao; }
            RA(q, p, a0, LD(tt)); for (int i = 0; i < n; ++i) q[i] += dt * p[i] + LD(dt) * dt / 2 * a0[i]; RA(q, p, a1, LD(tt) + dt); for (int i = 0; i < n; ++i) p[i] += LD(dt) / 2 * (a0[i] + a1[i]);
            double d = std::max(T::diff(x.first, q, n), T::diff(x.second, p, n)); H::maxi("dev-verlet", d); HREQUIRE(d <= 1e-11 * (1 + std::fabs(t)), "scheme", "step ", k, " differs by ", d); if (form >= 4) HCHECK(T::diff(a, a1, n) <= 1e-11 * (1 + std::fabs(t)), "returned-acceleration", "");
            size_t want = form < 4 && !was ? 2 : 1; HREQUIRE(ts.size() == want, "evaluations", ts.size(), " expected ", want); HCHECK(std::fabs(ts.back() - (tt + dt)) <= 1e-13 * (1 + std::fabs(tt)), "evaluation-time", ts.back(), " expected ", tt + dt); if (form < 4) HCHECK(s.is_initialized(), "is-initialized", "after step"); H::count("steps"); for (int i = 0; i < n; ++i) { q[i] = x.first[i]; p[i] = x.second[i]; }
        } });
    H::group("verlet-reversible-order", 30, [](Rng &r) { int n = r.range(1, 3); Ham h = Ham::make(r, n, true); long calls = 0; Acc A{&h, 0.5, &calls, nullptr}; typedef ode::velocity_verlet<lvec, lvec, LD> S; std::pair<lvec, lvec> x0; for (int i = 0; i < n; ++i) { x0.first.push_back(r.uni(-1, 1)); x0.second.push_back(r.uni(-1, 1)); } LD L = r.sign() * r.uni(1, 2); H::describe("verlet dim=", n, " L=", double(L)); H::nontrivial(); auto go = [&](std::pair<lvec, lvec> x, LD t0, LD len, int N) { S s; LD dt = len / N; for (int k = 0; k < N; ++k) s.do_step(A, x, t0 + k * dt, dt); return x; };
        auto y = go(go(x0, 0, L, 50), L, -L, 50); double d = std::max(T::diff(y.first, x0.first, n), T::diff(y.second, x0.second, n)); HCHECK(d <= 1e-12, "reversibility", d); auto fine = go(x0, 0, L, 20000); LD e[3]; for (int k = 0; k < 3; ++k) { auto z = go(x0, 0, L, 40 << k); e[k] = std::max(T::diff(z.first, fine.first, n), T::diff(z.second, fine.second, n)); } double o = double(std::log2(e[0] / e[2]) / 2); H::maxi("order-deficit-verlet", 2 - o); HCHECK(o > 1.7, "order", "observed order ", o); });
    H::group("verlet-energy", 3, [](Rng &r) { int n = r.range(1, 2); Ham h = Ham::make(r, n, true); long calls = 0; Acc A{&h, 0.0, &calls, nullptr}; ode::velocity_verlet<vec> s; std::pair<vec, vec> x; for (int i = 0; i < n; ++i) { x.first.push_back(r.uni(-1, 1)); x.second.push_back(r.uni(-1, 1)); } double dt = r.uni(0.02, 0.1); H::describe("verlet dim=", n, " dt=", dt); H::nontrivial(); LD e0 = h.energy(x.first, x.second), m1 = 0, m2 = 0; long N = 60000; for (long k = 0; k < N; ++k) { s.do_step(A, x, 0.0, dt); LD e = std::fabs(h.energy(x.first, x.second) - e0); (k < N / 5 ? m1 : m2) = std::max(k < N / 5 ? m1 : m2, e); } HCHECK(m2 <= 1.6L * m1 + 1e-11L, "energy-drift", double(m1), " -> ", double(m2)); HCHECK(calls == N + 1, "evaluations", calls); });
    H::group("integrate-symplectic", 40, [](Rng &r) { int n = r.range(1, 3); Ham h = Ham::make(r, n, false); Cnt c; auto sys = std::make_pair(Drift{&h, &c}, Force{&h, &c}); vec q0(n), p0(n); for (auto &y : q0) y = r.uni(-1, 1); for (auto &y : p0) y = r.uni(-1, 1); double t0 = r.uni(-5, 5), dt = r.sign() * r.uni(0.01, 0.2); int N = r.range(0, 50); H::describe("integrate dim=", n, " dt=", dt, " N=", N); H::nontrivial(N > 0); std::pair<vec, vec> x(q0, p0); std::vector<double> ts; std::vector<std::pair<vec, vec>> xs; auto ob = [&](const std::pair<vec, vec> &y, double t) { ts.push_back(t); xs.push_back(y); }; double te = ode::integrate_n_steps(ode::symplectic_rkn_sb3a_mclachlan<vec>(), sys, x, t0, dt, N, ob); HREQUIRE((int)ts.size() == N + 1, "observations", ts.size()); lvec q(q0.begin(), q0.end()), p(p0.begin(), p0.end()); Scheme sc = s_sb3a(); for (int k = 0; k <= N; ++k) { HCHECK(T::diff(xs[k].first, q, n) <= 1e-11 && T::diff(xs[k].second, p, n) <= 1e-11, "observed", k); HCHECK(std::fabs(ts[k] - t0 - k * dt) <= 1e-13 * (1 + std::fabs(t0)), "time", ts[k]); ref_step(sc, h, q, p, dt); } HCHECK(std::fabs(te - t0 - N * dt) < 1e-12, "returned-time", te); HCHECK(x == xs.back(), "final", ""); });
    return H::finish();
}
