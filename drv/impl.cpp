// C14: implicit Euler and Rosenbrock steps against their defining equations (long double models), stiff problems
#include "zoo.hpp"
#include "ref2.hpp"
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
using namespace Z; using H::Rng; using R::LD; using R::V; using R::M;
// problems with Jacobian: 0 generic (optionally stiff), 1 van der Pol, 2 Robertson-like kinetics, 3 dense linear stiff, 4 pendulum-like with damping
struct Pb {
    int kind, n; T::Prob p; double mu; M A; V b;
    template <class X, class D, class Tm> void rhs(const X &x, D &d, Tm t) const { typedef typename std::decay<decltype(x[0])>::type S; using std::sin; using std::cos;
        switch (kind) { case 0: p.rhs<S>(x, d, S(t)); break; case 1: d[0] = x[1]; d[1] = S(mu) * (1 - x[0] * x[0]) * x[1] - x[0]; break; case 2: { S r1 = S(0.04) * x[0], r2 = S(mu) * x[1] * x[2], r3 = S(30) * S(mu) * x[1] * x[1]; d[0] = -r1 + r2; d[2] = r3; d[1] = r1 - r2 - r3; break; }
            case 3: for (int i = 0; i < n; ++i) { S v = S(b[i]) * cos(S(t) + S(i)); for (int j = 0; j < n; ++j) v += S(A[i][j]) * x[j]; d[i] = v; } break; default: d[0] = x[1]; d[1] = -S(mu) * sin(x[0]) - x[1] * S(mu) * (1 + cos(S(t)) / 2); } }
    template <class X, class J, class Tm, class D> void jac(const X &x, J &j, Tm t, D &ft) const { typedef typename std::decay<decltype(x[0])>::type S; using std::sin; using std::cos; for (int i = 0; i < n; ++i) ft[i] = 0;
        switch (kind) { case 0: p.jac<S>(x, j, S(t), ft); break; case 1: j(0, 0) = 0; j(0, 1) = 1; j(1, 0) = -2 * S(mu) * x[0] * x[1] - 1; j(1, 1) = S(mu) * (1 - x[0] * x[0]); break; case 2: j(0, 0) = -S(0.04); j(0, 1) = S(mu) * x[2]; j(0, 2) = S(mu) * x[1]; j(2, 0) = 0; j(2, 1) = 60 * S(mu) * x[1]; j(2, 2) = 0; for (int k = 0; k < 3; ++k) j(1, k) = -j(0, k) - j(2, k); break;
            case 3: for (int i = 0; i < n; ++i) { for (int k = 0; k < n; ++k) j(i, k) = S(A[i][k]); ft[i] = -S(b[i]) * sin(S(t) + S(i)); } break; default: j(0, 0) = 0; j(0, 1) = 1; j(1, 0) = -S(mu) * cos(x[0]); j(1, 1) = -S(mu) * (1 + cos(S(t)) / 2); ft[1] = x[1] * S(mu) * sin(S(t)) / 2; } }
    static Pb make(Rng &r, std::vector<double> &x0, double t) { Pb q; q.kind = r.range(0, 4); q.mu = r.logu(1, 300); switch (q.kind) { case 0: q.n = r.range(1, 6); break; case 2: q.n = 3; q.mu = r.logu(1, 1e4); break; case 3: q.n = r.range(1, 6); break; default: q.n = 2; } q.p = T::Prob::make(r, q.n, 2.0, 0.5); if (q.kind == 0 && r.coin()) for (auto &v : q.p.l) v = std::fabs(v) * r.logu(1, 300); x0.assign(q.n, 0);
        if (q.kind == 0) { x0 = q.p.exact(t); for (auto &v : x0) v += r.uni(-0.7, 0.7); } else if (q.kind == 2) { x0[1] = r.logu(1e-6, 1e-2); x0[0] = r.uni(0.2, 0.9); x0[2] = 1 - x0[0] - x0[1]; } else for (auto &v : x0) v = r.uni(-2, 2);
        if (q.kind == 3) { double L = r.logu(1, 300); q.A.assign(q.n, V(q.n)); q.b.assign(q.n, 0); for (int i = 0; i < q.n; ++i) { q.b[i] = r.uni(-2, 2); for (int j = 0; j < q.n; ++j) q.A[i][j] = r.uni(-1, 1) * (r.coin(0.3) ? L : 1); q.A[i][i] = -std::fabs(q.A[i][i]) - (r.coin() ? L : 1); } } return q; }
};
struct PF { const Pb *p; V operator()(const V &x, LD t) const { V d(x.size()); p->rhs(x, d, t); return d; } };
struct PJ { const Pb *p; M operator()(const V &x, LD t, V &ft) const { T::MJ J; J.m.assign(x.size(), V(x.size())); p->jac(x, J, t, ft); return J.m; } };
struct Sy { const Pb *p; T::Log *l; void operator()(const uvec &x, uvec &d, double t) const { if (++l->calls > l->budget) throw H::Budget(); if (l->rec) { T::Entry e; e.t = t; e.x.assign(x.begin(), x.end()); l->e.push_back(e); } p->rhs(x, d, t); } };
struct Jc { const Pb *p; T::Log *l; void operator()(const uvec &x, umat &J, double t) const { uvec ft(x.size()); (*this)(x, J, t, ft); } void operator()(const uvec &x, umat &J, double t, uvec &ft) const { if (++l->calls > l->budget) throw H::Budget(); if (l->rec) { T::Entry e; e.t = t; l->e.push_back(e); } p->jac(x, J, t, ft); } };
static uvec uv(const std::vector<double> &v) { uvec x(v.size()); for (size_t i = 0; i < v.size(); ++i) x[i] = v[i]; return x; }
static std::vector<double> sv(const uvec &x) { return std::vector<double>(x.begin(), x.end()); }
static LD nrm(const V &v) { LD s = 0; for (auto y : v) s += y * y; return std::sqrt(s); }
int main(int c, char **v) {
    H::init(c, v, "impl");
    H::group("implicit-euler", 1500, [](Rng &r) {
        double eps = r.coin(0.4) ? 1e-6 : r.logu(1e-11, 1e-3); std::unique_ptr<ode::implicit_euler<double>> s(eps == 1e-6 && r.coin() ? new ode::implicit_euler<double>() : new ode::implicit_euler<double>(eps)); int steps = r.range(1, 4), done = 0; double t = r.uni(-5, 5); std::vector<double> x0; Pb p = Pb::make(r, x0, t); int n = p.n; uvec x = uv(x0); double dt = (r.coin(0.85) ? 1 : -1) * r.logu(1e-4, 1);
        H::describe("implicit-euler kind=", p.kind, " dim=", n, " eps=", eps, " t=", t, " dt=", dt, " mu=", p.mu, " steps=", steps);
        for (int k = 0; k < steps; ++k) {
            // model: simplified Newton from the old state in long double
            V y(x.begin(), x.end()), old = y; LD te = LD(t) + dt; V ft(n); M A = PJ{&p}(y, te, ft); LD an = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { A[i][j] = dt * A[i][j] - (i == j); an = std::max(an, std::fabs(A[i][j])); } LD last = 1e300, rate = 0; bool conv = false; int it = 0; LD sc = 1;
            for (; it < 60; ++it) { V b = PF{&p}(y, te); for (int i = 0; i < n; ++i) b[i] = old[i] - y[i] + dt * b[i]; b = R::solve(A, b); LD nb = nrm(b); for (int i = 0; i < n; ++i) y[i] -= b[i]; for (auto w : y) sc = std::max(sc, std::fabs(w)); if (it && nb > 1e-13L * sc) rate = std::max(rate, nb / last); last = nb; if (nb < 1e-15L * sc) { conv = true; break; } if (!(nb < 1e6L)) break; }
            V cond(n); { M I = A; for (int i = 0; i < n; ++i) { V e(n); e[i] = 1; V q = R::solve(A, e); for (auto w : q) cond[i] = std::max(cond[i], std::fabs(w)); } } LD cn = 0; for (auto w : cond) cn = std::max(cn, w); LD noise = 1e-14L * sc * (1 + std::fabs(t)) * (1 + an) * (1 + cn); if (!conv || rate > 0.4L || noise > 0.3L * eps) { H::count("outside-domain"); break; }
            T::Log l; l.rec = true; l.budget = 400; std::vector<double> in = sv(x); s->do_step(std::make_pair(Sy{&p, &l}, Jc{&p, &l}), x, t, dt); ++done;
            V d(n); for (int i = 0; i < n; ++i) d[i] = x[i] - y[i]; double df = double(nrm(d)); H::maxi("dev-over-eps", df / (eps + double(noise))); HREQUIRE(df <= 1.0 * eps + 10 * double(noise), "backward-euler-equation", "step ", k, ": distance ", df, " of the result from the solution of the implicit equation, eps=", eps, ": ", T::str(x, n), " expected ", T::str(y, n)); for (auto &e : l.e) HCHECK(std::fabs(double(e.t) - (t + dt)) <= 1e-14 * (1 + std::fabs(t)), "evaluation-time", double(e.t), " instead of ", t + dt); HCHECK(l.calls <= 2 * (it + 2) + 2, "work", l.calls, " evaluations, the model needs ", it + 2); H::count("steps"); H::count("newton-iterations", it);
            t += dt; if (r.coin(0.2)) { x0.clear(); p = Pb::make(r, x0, t); n = p.n; x = uv(x0); s->adjust_size(x); H::count("size-changes"); } } // the default resizer adapts once only
        H::nontrivial(done > 0); });
    H::group("rosenbrock4", 1500, [](Rng &r) {
        typedef ode::rosenbrock4<double> S; S s; double t = r.uni(-5, 5); std::vector<double> x0; Pb p = Pb::make(r, x0, t); int n = p.n; uvec x = uv(x0); double dt = (r.coin(0.8) ? 1 : -1) * r.logu(1e-4, 1); int steps = r.range(1, 4); H::describe("rosenbrock4 kind=", p.kind, " dim=", n, " t=", t, " dt=", dt, " mu=", p.mu, " steps=", steps); HCHECK(s.order() == 4, "order", s.order());
        for (int k = 0; k < steps; ++k) {
            auto o = R::rodas(PF{&p}, PJ{&p}, V(x.begin(), x.end()), t, dt); LD sc = 1; V ft(n); M A = PJ{&p}(V(x.begin(), x.end()), t, ft); LD an = 0, cn = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { A[i][j] = (i == j ? 4.0L / dt : 0) - A[i][j]; an = std::max(an, std::fabs(A[i][j])); } for (int i = 0; i < n; ++i) { V e(n); e[i] = 1; V q = R::solve(A, e); for (auto w : q) cn = std::max(cn, std::fabs(w)); } for (auto &w : o.X) for (auto y : w) sc = std::max(sc, std::fabs(y)); LD g = 0; for (auto &w : o.X) { V f = PF{&p}(w, t); for (auto y : f) g = std::max(g, std::fabs(y)); } double tol = double(1e-13L * sc * (1 + std::fabs(t)) * (1 + an * cn + cn * g)); if (!(tol < 1e-5)) { H::count("ill-conditioned"); break; }
            T::Log l; l.rec = true; T::Log lj; lj.rec = true; auto sy = std::make_pair(Sy{&p, &l}, Jc{&p, &lj}); int f = r.range(0, 3); uvec in = x, out(n), e(n); for (int i = 0; i < n; ++i) out[i] = e[i] = NAN; switch (f) { case 0: out = x; s.do_step(sy, out, t, dt); break; case 1: s.do_step(sy, x, t, out, dt); break; case 2: out = x; s.do_step(sy, out, t, dt, e); break; default: s.do_step(sy, x, t, out, dt, e); } H::nontrivial();
            double df = T::diff(out, o.x, n); H::maxi("dev-over-tol", df / tol); HREQUIRE(df <= tol, "state", "form ", f, " differs from the published scheme by ", df, " (tolerance ", tol, ")"); if (f >= 2) { double de = T::diff(e, o.err, n); HREQUIRE(de <= tol, "error-estimate", de); H::count("error-estimates"); } HCHECK(sv(x) == sv(in), "input-modified", ""); R::Out oo; oo.X = o.X; oo.T = o.T; std::string w = T::match_log(l, oo, 0, tol * 10); HCHECK(w.empty(), "evaluations", w); HCHECK(lj.e.size() == 1 && lj.e[0].t == t, "jacobian-evaluations", lj.e.size());
            s.prepare_dense_output(); for (int q = 0; q < 3; ++q) { double th = q == 0 ? r.u01() : q - 1.0, tq = th == 1 ? t + dt : t + th * dt; uvec y(n); s.calc_state(tq, y, in, t, out, t + dt); double di = T::diff(y, o.dense(LD(tq)), n); HCHECK(di <= 10 * tol, "interpolant", "theta=", th, " differs by ", di); }
            x = out; t += dt; H::count("steps"); if (r.coin(0.2)) { p = Pb::make(r, x0, t); n = p.n; x = uv(x0); s.adjust_size(x); H::count("size-changes"); } } });
    // stiff relaxation onto a smooth solution: steps far above 2/lambda are stable and land on the slow solution
    H::group("stiff-decay", 150, [](Rng &r) {
        T::Prob p = T::Prob::make(r, r.range(1, 4), 1.0, 0.1); double lam = r.logu(1e3, 1e7); for (auto &w : p.l) w = lam * r.uni(0.5, 2); double t = r.uni(-3, 3); int n = p.n; bool ros = r.coin(); double dt = r.uni(0.02, 0.1); H::describe(ros ? "rosenbrock4" : "implicit-euler", " lambda=", lam, " dim=", n, " dt=", dt); H::nontrivial(); T::Log l; auto x0 = p.exact(t); for (auto &w : x0) w += r.uni(0.5, 2) * r.sign(); uvec x = uv(x0); struct JI { const T::Prob *p; void operator()(const uvec &x, umat &m, double tt) const { uvec d(x.size()); p->jac<double>(x, m, tt, d); } };
        double e0 = T::diff(x, p.exact(t), n); int k = ros ? 6 : 8; ode::rosenbrock4<double> s; ode::implicit_euler<double> q(1e-8); for (int i = 0; i < k; ++i) { if (ros) s.do_step(SysI::system(p, l), x, t, dt); else q.do_step(std::make_pair(T::Sys(p, l), JI{&p}), x, t, dt); t += dt; double e = T::diff(x, p.exact(t), n); HCHECK(e <= 2 * e0 + 1, "unstable", "deviation ", e, " after ", i + 1, " steps"); } double e = T::diff(x, p.exact(t), n); double bound = ros ? 0.02 : 0.02; H::maxi(ros ? "ros-dev" : "ie-dev", e); HCHECK(e <= bound, "not-damped", "deviation ", e, " after ", k, " steps, initially ", e0); });
    H::group("stiff-adaptive", 60, [](Rng &r) {
        T::Prob p = T::Prob::make(r, r.range(2, 4), 1.0, 0.1); double lam = r.logu(1e3, 1e6); for (auto &w : p.l) w = lam * r.uni(0.5, 2); double t0 = r.uni(-3, 3), eps = r.logu(1e-7, 1e-4), len = r.uni(2, 6); int n = p.n; int how = r.range(0, 2); H::describe("how=", how, " lambda=", lam, " dim=", n, " eps=", eps, " len=", len); H::nontrivial(); T::Log l; l.budget = 400000; auto x0 = p.exact(t0); for (auto &w : x0) w += r.uni(-1, 1); uvec x = uv(x0); auto sy = SysI::system(p, l); size_t st;
        if (how == 0) st = ode::integrate_adaptive(ode::make_controlled(eps, eps, ode::rosenbrock4<double>()), sy, x, t0, t0 + len, 1e-4); else if (how == 1) st = ode::integrate_adaptive(ode::make_dense_output(eps, eps, ode::rosenbrock4<double>()), sy, x, t0, t0 + len, 1e-4); else st = ode::integrate_const(ode::make_dense_output(eps, eps, ode::rosenbrock4<double>()), sy, x, t0, t0 + len, len / 8 * (1 - 1e-12));
        double e = T::diff(x, p.exact(how == 2 ? t0 + 8 * (len / 8 * (1 - 1e-12)) : t0 + len), n) / eps; H::maxi("stiff-adaptive-dev", e); H::maxi("stiff-adaptive-steps", double(st)); HCHECK(e <= 100, "accuracy", e, " tolerances"); HCHECK(st * lam > 0 && st < 3000, "steps", st, " steps"); HCHECK(st < lam * len / 3 || lam < 3000, "explicit-like-steps", st); });
    return H::finish();
}
