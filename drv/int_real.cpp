// C01-C04 (PART=1..4, ZOO=0 plain,1 controlled,2 dense): integrate functions with the library's steppers on a problem
// with known solution.  Plain steppers: equal to a hand-written loop; others: exact solution within tolerance.
#include "zoo.hpp"
#include <functional>
#include <boost/ref.hpp>
#include <boost/numeric/odeint/integrate/integrate.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
using namespace Z; using H::Rng;
struct Rec { double t; std::vector<double> x; };
struct Ob { std::vector<Rec> *r; int n; template <class X> void operator()(const X &x, double t) const { if (r->size() > 300000) throw H::Budget(); Rec q; q.t = t; for (int i = 0; i < n; ++i) q.x.push_back(x[i]); r->push_back(q); } };
static const double EPS = 1e-9, ACC = 1e4; // measured worst ratio is reported as worst_deviation
struct Cnt { long *calls, *resets; void operator()() { ++*calls; } void reset() { ++*resets; } };
template <class F> void zoo(Rng &r, F f) {
    int w = r.range(0, (ZOO == 0 ? NPLAIN : ZOO == 1 ? NCTRL : NDENSE) - 1);
#if ZOO == 0
    zoo_plain(f, w);
#elif ZOO == 1
    zoo_ctrl(f, w, EPS, EPS);
#else
    zoo_dense(f, w, EPS, EPS);
#endif
}
static void cmp(const char *nm, const std::vector<double> &x, const std::vector<double> &e, double tol, const char *key, double t) {
    double d = T::diff(x, e, int(x.size())); H::maxi(std::string("dev-") + nm, d); HCHECK(d <= tol, key, nm, " at t=", t, " deviates by ", d, " ", T::str(x, x.size()), " vs ", T::str(e, e.size()));
}
// global error within a moderate multiple of the tolerance times the amplification of the problem
static void acc(const char *nm, const std::vector<double> &x, const T::Prob &p, double t0, double t, double eps, const char *key) {
    std::vector<double> e = p.exact(t); double d = T::diff(x, e, p.n), q = d / (eps * (1 + std::fabs(t - t0)) * p.amp(t - t0)); H::maxi(std::string("acc-") + nm, q); HCHECK(q <= ACC, key, nm, " at t=", t, " deviates by ", d, " = ", q, " * tolerance * amplification: ", T::str(x, x.size()), " vs ", T::str(e, e.size()));
}
// the hand-written loop for plain steppers
#if ZOO == 0
template <class Tag, class Mk> std::vector<Rec> loop_grid(Tag, Mk mk, const T::Prob &p, double t0, double dt, long n, std::vector<double> x0) {
    auto s = mk(); T::Log l; auto sy = Tag::system(p, l); auto x = Tag::make(x0); std::vector<Rec> v; Ob o{&v, p.n}; o(x, t0); for (long k = 0; k < n; ++k) { s.do_step(sy, x, t0 + double(k) * dt, dt); o(x, t0 + double(k + 1) * dt); } return v;
}
#endif
template <class Tag, class Mk> void finish_case(const char *nm, Kind k, const T::Prob &p, const std::vector<Rec> &rec, const std::vector<double> &xend, double tend) {
    if (k != PLAIN) { double t0 = rec[0].t; for (auto &q : rec) acc(nm, q.x, p, t0, q.t, EPS, "observed-solution"); acc(nm, xend, p, t0, tend, EPS, "final-state"); }
}
static std::vector<double> tovec(const vec &x) { return x; }
static std::vector<double> tovec(const uvec &x) { return std::vector<double>(x.begin(), x.end()); }

// integrates in one of several call forms; returns the function's return value
template <class Call, class S, class Y, class X> double callform(int form, Call c, S &s, Y &y, X &x, Ob o, long &chk, long &rst) {
    chk = rst = -1;
    switch (form) { default: return c(s, y, x, o); case 1: return c(std::ref(s), y, x, std::ref(o)); case 2: { chk = rst = 0; return c(s, y, x, o, Cnt{&chk, &rst}); } case 3: return c(boost::ref(s), boost::ref(y), x, o); }
}
static void part_const(bool nsteps) {
    H::group(nsteps ? "real-nsteps" : "real-const", ZOO == 0 ? 250 : 200, [nsteps](Rng &r) { zoo(r, [&](const char *nm, Kind k, auto tag, auto mk) {
        typedef decltype(tag) Tag; T::Prob p = T::Prob::make(r, r.range(ZOO == 0 ? 1 : 2, 4), 2.0, 0.2); double t0 = r.coin(0.3) ? 0 : r.uni(-20, 20); long n = r.range(k == PLAIN ? 0 : 0, 30); double dt = r.sign() * (k == PLAIN ? r.uni(0.01, 0.1) : r.coin(0.3) ? r.uni(0.3, 1.5) : r.uni(0.01, 0.4)); if (std::fabs(dt) * n > 8) n = long(8 / std::fabs(dt)); double t1 = t0 + (n + r.uni(0.1, 0.9)) * dt; int form = r.range(0, 3); if (k == PLAIN && std::string(nm) == "rosenbrock4" && form == 3) form = 1;
        H::describe(nsteps ? "nsteps " : "const ", nm, " form=", form, " dim=", p.n, " t0=", t0, " dt=", dt, " n=", n); H::nontrivial(n > 0);
        T::Log l; l.budget = 3000000; auto sy = Tag::system(p, l); auto x = Tag::make(p.exact(t0)); auto s = mk(); std::vector<Rec> rec; Ob o{&rec, p.n}; long chk, rst;
        double ret = nsteps ? callform(form, [&](auto s_, auto y_, auto &x_, auto... o_) { return ode::integrate_n_steps(s_, y_, x_, t0, dt, size_t(n), o_...); }, s, sy, x, o, chk, rst)
                            : callform(form, [&](auto s_, auto y_, auto &x_, auto... o_) { return double(ode::integrate_const(s_, y_, x_, t0, t1, dt, o_...)); }, s, sy, x, o, chk, rst);
        HREQUIRE((long)rec.size() == n + 1, "observation-count", nm, ": ", rec.size(), " observations, expected ", n + 1); for (long i = 0; i <= n; ++i) HREQUIRE(std::fabs(rec[i].t - (t0 + i * dt)) <= 1e-13 * (1 + std::fabs(t0) + std::fabs(i * dt)), "observation-time", nm, " #", i, " at ", rec[i].t);
        double te = t0 + n * dt; if (nsteps) HCHECK(std::fabs(ret - te) <= 1e-13 * (1 + std::fabs(t0) + std::fabs(te)), "returned-time", ret); else if (chk >= 0) HCHECK(ret == chk, "returned-steps", nm, " returned ", ret, " performed ", chk); if (rst >= 0) HCHECK(rst == n + 1, "checker-reset", rst);
#if ZOO == 0
        if (k == PLAIN) { if (!nsteps) HCHECK(ret == n, "returned-steps", ret); auto ref = loop_grid(tag, mk, p, t0, dt, n, p.exact(t0)); for (long i = 0; i <= n; ++i) cmp(nm, rec[i].x, ref[i].x, 1e-11, "differs-from-loop", rec[i].t); cmp(nm, tovec(x), ref[n].x, 1e-11, "final-state", te); }
#endif
        finish_case<Tag, decltype(mk)>(nm, k, p, rec, tovec(x), te); H::count("observations", rec.size()); H::count("rhs-calls", l.calls); }); });
}
static void part_adaptive() {
    H::group("real-adaptive", 250, [](Rng &r) { zoo(r, [&](const char *nm, Kind k, auto tag, auto mk) {
        typedef decltype(tag) Tag; T::Prob p = T::Prob::make(r, r.range(ZOO == 0 ? 1 : 2, 4), 2.0, 0.2); double t0 = r.coin(0.3) ? 0 : r.uni(-20, 20), len = r.coin(0.1) ? r.logu(1e-6, 1e-2) : r.uni(0.05, 8), dir = r.sign(), t1 = t0 + dir * len; double dt = dir * (k == PLAIN ? std::max(r.uni(0.01, 0.1), len / 500) : r.logu(1e-4, 10)); int form = r.coin() ? 0 : r.range(0, 1); bool tiny = r.coin(0.05); if (tiny && k != PLAIN) dt = dir * 1e-7;
        H::describe("adaptive ", nm, " form=", form, " dim=", p.n, " t0=", t0, " t1=", t1, " dt=", dt); H::nontrivial();
        T::Log l; l.budget = 3000000; auto sy = Tag::system(p, l); auto x = Tag::make(p.exact(t0)); auto s = mk(); std::vector<Rec> rec; Ob o{&rec, p.n}; long c1, c2;
        double ret = callform(form, [&](auto s_, auto y_, auto &x_, auto o_, auto...) { return double(ode::integrate_adaptive(s_, y_, x_, t0, t1, dt, o_)); }, s, sy, x, o, c1, c2);
        HREQUIRE((double)rec.size() == ret + 1, "observation-count", nm, ": ", rec.size(), " observations for ", ret, " steps"); HCHECK(rec[0].t == t0, "first-observation", rec[0].t); HCHECK(std::fabs(rec.back().t - t1) <= 1e-13 * (1 + std::fabs(t0)), "last-observation", nm, " at ", rec.back().t, " instead of ", t1);
        for (size_t i = 1; i < rec.size(); ++i) { HCHECK((rec[i].t - rec[i - 1].t) * dir > 0, "observation-order", nm, " ", rec[i - 1].t, " -> ", rec[i].t); HCHECK((rec[i].t - t1) * dir <= 1e-13 * (1 + std::fabs(t0)), "beyond-end", rec[i].t); }
#if ZOO == 0
        if (k == PLAIN) { long n = long(std::floor((t1 - t0) / dt)); auto ref = loop_grid(tag, mk, p, t0, dt, n, p.exact(t0)); HREQUIRE((long)rec.size() >= n + 1 && (long)rec.size() <= n + 2, "observation-count", rec.size(), " n=", n); for (long i = 0; i <= n; ++i) cmp(nm, rec[i].x, ref[i].x, 1e-11, "differs-from-loop", rec[i].t);
            if (std::string(nm) != "ab4" && std::string(nm) != "abm4") cmp("plain-accuracy", rec.back().x, p.exact(t1), std::string(nm) == "mid" ? 1e-1 : 1e-2, "last-step", t1); }
#endif
        cmp("state-vs-last-observation", tovec(x), rec.back().x, 1e-12, "final-state", t1); if (k != PLAIN) finish_case<Tag, decltype(mk)>(nm, k, p, rec, tovec(x), t1);
        // unobserved call gives the same
        if (r.coin(0.3) && std::string(nm) != "ab4" && std::string(nm) != "abm4") { auto x2 = Tag::make(p.exact(t0)); auto s2 = mk(); T::Log l2; l2.budget = 3000000; double r2 = double(ode::integrate_adaptive(s2, Tag::system(p, l2), x2, t0, t1, dt)); HCHECK(r2 == ret, "unobserved-steps", nm, " ", r2, " vs ", ret); cmp("unobserved", tovec(x2), tovec(x), 1e-12, "unobserved-state", t1); }
        H::count("observations", rec.size()); H::count("rhs-calls", l.calls); H::count("steps", long(ret)); }); });
#if ZOO == 1
    H::group("integrate", 150, [](Rng &r) { T::Prob p = T::Prob::make(r, r.range(ZOO == 0 ? 1 : 2, 4), 2.0, 0.2); double t0 = r.uni(-10, 10), len = r.uni(0.05, 8), dir = r.sign(), t1 = t0 + dir * len, dt = dir * r.logu(1e-3, 5); int form = r.range(0, 2); H::describe("integrate form=", form, " dim=", p.n, " t0=", t0, " t1=", t1, " dt=", dt); H::nontrivial();
        T::Log l; l.budget = 3000000; T::Sys sy(p, l); vec x = p.exact(t0); std::vector<Rec> rec; Ob o{&rec, p.n}; size_t ret; if (form == 0) ret = ode::integrate(sy, x, t0, t1, dt, o); else if (form == 1) ret = ode::integrate<double>(std::ref(sy), x, t0, t1, dt, std::ref(o)); else ret = ode::integrate(sy, x, t0, t1, dt);
        if (form != 2) { HREQUIRE(rec.size() == ret + 1, "observation-count", rec.size(), " vs ", ret); HCHECK(rec[0].t == t0 && std::fabs(rec.back().t - t1) <= 1e-13 * (1 + std::fabs(t0)), "ends", ""); for (size_t i = 1; i < rec.size(); ++i) HCHECK((rec[i].t - rec[i - 1].t) * dir > 0, "observation-order", ""); for (auto &q : rec) acc("integrate", q.x, p, t0, q.t, 1e-6, "observed-solution"); }
        HCHECK(ret >= 1, "steps", ret); acc("integrate", x, p, t0, t1, 1e-6, "final-state"); H::count("steps", ret); });
#endif
}
static void part_times() {
    H::group("real-times", 250, [](Rng &r) { zoo(r, [&](const char *nm, Kind k, auto tag, auto mk) {
        typedef decltype(tag) Tag; T::Prob p = T::Prob::make(r, r.range(ZOO == 0 ? 1 : 2, 4), 2.0, 0.2); double dir = r.sign(), t = r.coin(0.3) ? 0 : r.uni(-20, 20); int n = r.coin(0.1) ? r.range(1, 2) : r.range(2, 40); std::vector<double> ts; double sc = r.logu(0.003, 0.3), t00 = t; for (int i = 0; i < n && std::fabs(t - t00) < 8; ++i) { ts.push_back(t); t += dir * sc * r.logu(0.02, 8); }
        double dt = dir * (k == PLAIN ? r.uni(0.01, 0.1) : r.logu(1e-3, 3)); int form = r.range(0, 2); H::describe("times ", nm, " form=", form, " dim=", p.n, " n=", ts.size(), " t0=", ts[0], " t1=", ts.back(), " dt=", dt); H::nontrivial(ts.size() > 1);
        T::Log l; l.budget = 3000000; auto sy = Tag::system(p, l); auto x = Tag::make(p.exact(ts[0])); auto s = mk(); std::vector<Rec> rec; Ob o{&rec, p.n}; long chk, rst; bool rng = r.coin();
        double ret = rng ? callform(form, [&](auto s_, auto y_, auto &x_, auto... o_) { return double(ode::integrate_times(s_, y_, x_, ts, dt, o_...)); }, s, sy, x, o, chk, rst) : callform(form, [&](auto s_, auto y_, auto &x_, auto... o_) { return double(ode::integrate_times(s_, y_, x_, ts.begin(), ts.end(), dt, o_...)); }, s, sy, x, o, chk, rst);
        HREQUIRE(rec.size() == ts.size(), "observation-count", nm, ": ", rec.size(), " observations for ", ts.size(), " times"); for (size_t i = 0; i < ts.size(); ++i) HCHECK(rec[i].t == ts[i], "observation-time", rec[i].t, " expected ", ts[i]); if (chk >= 0) { HCHECK(chk == ret, "returned-steps", ret, " performed ", chk); HCHECK(rst == (long)ts.size(), "checker-reset", rst); }
#if ZOO == 0
        if (k == PLAIN) { auto s2 = mk(); T::Log l2; auto sy2 = Tag::system(p, l2); auto x2 = Tag::make(p.exact(ts[0])); long steps = 0; double eps = 2.3e-16; for (size_t i = 0; i < ts.size(); ++i) { cmp(nm, rec[i].x, tovec(x2), 1e-11, "differs-from-loop", ts[i]); if (i + 1 == ts.size()) break; double c = ts[i]; while ((ts[i + 1] - c) * dir > eps) { double d = ts[i + 1] - c; if (std::fabs(d) > std::fabs(dt)) d = dt; s2.do_step(sy2, x2, c, d); c += d; ++steps; } } HCHECK(std::fabs(steps - ret) <= 0, "returned-steps", ret, " loop made ", steps); }
#endif
        cmp("state-vs-last-observation", tovec(x), rec.back().x, 1e-12, "final-state", ts.back()); finish_case<Tag, decltype(mk)>(nm, k, p, rec, tovec(x), ts.back()); H::count("observations", rec.size()); H::count("rhs-calls", l.calls); }); });
}
int main(int c, char **v) {
    H::init(c, v, "int_real");
#if PART == 1
    part_const(false);
#elif PART == 2
    part_const(true);
#elif PART == 3
    part_adaptive();
#else
    part_times();
#endif
    return H::finish();
}
