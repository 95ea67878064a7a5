// C06: iterators and ranges against the integrate functions. PART 0: scripted steppers; 1 plain, 2 controlled, 3 dense real steppers
#include "mock.hpp"
#include "zoo.hpp"
#include <algorithm>
#include <functional>
#include <list>
#include <boost/ref.hpp>
#include <boost/range/algorithm/for_each.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/iterator/const_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
using H::Rng; namespace ode = boost::numeric::odeint;
struct Pt { std::vector<double> x; double t; bool hast; };
template <class X> std::vector<double> tov(const X &x) { return std::vector<double>(x.begin(), x.end()); }
template <class X> Pt pt(const X &x) { return Pt{tov(x), 0, false}; }
template <class X, class Tm> Pt pt(const std::pair<X, Tm> &q) { return Pt{tov(q.first), q.second, true}; }
struct Ob { std::vector<Pt> *r; template <class X> void operator()(const X &x, double t) const { r->push_back(Pt{tov(x), t, true}); if (r->size() > 100000) throw H::Budget(); } };
static const size_t LIM = 100000;
static bool eq(const Pt &a, const Pt &b) { return a.x == b.x && a.t == b.t; }
template <class I> void walk(I b, I e, int mode, std::vector<Pt> &out) {
    switch (mode) {
    case 0: case 3: for (I it = b; it != e;) { Pt p = pt(*it), q = pt(*it); HCHECK(eq(p, q), "dereference-not-repeatable", ""); I c(it); HCHECK(c == it && !(c != it), "copy-not-equal", ""); HCHECK(eq(pt(*c), p), "copy-dereferences-differently", ""); HCHECK(!(it == e), "end-comparison", ""); out.push_back(p); if (out.size() > LIM) throw H::Budget(); if (mode == 0) ++it; else it++; if (it != e) HCHECK(!(it == e), "end-comparison", ""); else { HCHECK(it == e && e == it, "end-comparison", ""); } } break;
    case 1: std::for_each(b, e, [&](const auto &v) { out.push_back(pt(v)); if (out.size() > LIM) throw H::Budget(); }); break;
    case 2: { auto rg = std::make_pair(b, e); boost::for_each(rg, [&](const auto &v) { out.push_back(pt(v)); if (out.size() > LIM) throw H::Budget(); }); break; }
    default: { std::find_if(b, e, [&](const auto &v) { out.push_back(pt(v)); if (out.size() > LIM) throw H::Budget(); return false; }); } } // NOLINT
}
enum Kind { PLAIN, CTRL, DENSE };
struct Job { int fam; double t0, t1, dt; size_t n; std::vector<double> ts; int mode; bool time, range; };
// calls the factory functions of a family
template <class S, class Y, class X> void it_const(const Job &j, S s, Y y, X &x, std::vector<Pt> &o) {
    if (j.time) { if (j.range) { auto q = ode::make_const_step_time_range(s, y, x, j.t0, j.t1, j.dt); walk(q.first, q.second, j.mode, o); } else walk(ode::make_const_step_time_iterator_begin(s, y, x, j.t0, j.t1, j.dt), ode::make_const_step_time_iterator_end(s, y, x), j.mode, o); }
    else { if (j.range) { auto q = ode::make_const_step_range(s, y, x, j.t0, j.t1, j.dt); walk(q.first, q.second, j.mode, o); } else walk(ode::make_const_step_iterator_begin(s, y, x, j.t0, j.t1, j.dt), ode::make_const_step_iterator_end(s, y, x), j.mode, o); }
}
template <class S, class Y, class X> void it_nstep(const Job &j, S s, Y y, X &x, std::vector<Pt> &o) {
    if (j.time) { if (j.range) { auto q = ode::make_n_step_time_range(s, y, x, j.t0, j.dt, j.n); walk(q.first, q.second, j.mode, o); } else walk(ode::make_n_step_time_iterator_begin(s, y, x, j.t0, j.dt, j.n), ode::make_n_step_time_iterator_end(s, y, x), j.mode, o); }
    else { if (j.range) { auto q = ode::make_n_step_range(s, y, x, j.t0, j.dt, j.n); walk(q.first, q.second, j.mode, o); } else walk(ode::make_n_step_iterator_begin(s, y, x, j.t0, j.dt, j.n), ode::make_n_step_iterator_end(s, y, x), j.mode, o); }
}
template <class S, class Y, class X> void it_adaptive(const Job &j, S s, Y y, X &x, std::vector<Pt> &o) {
    if (j.time) { if (j.range) { auto q = ode::make_adaptive_time_range(s, y, x, j.t0, j.t1, j.dt); walk(q.first, q.second, j.mode, o); } else walk(ode::make_adaptive_time_iterator_begin(s, y, x, j.t0, j.t1, j.dt), ode::make_adaptive_time_iterator_end(s, y, x), j.mode, o); }
    else { if (j.range) { auto q = ode::make_adaptive_range(s, y, x, j.t0, j.t1, j.dt); walk(q.first, q.second, j.mode, o); } else walk(ode::make_adaptive_iterator_begin(s, y, x, j.t0, j.t1, j.dt), ode::make_adaptive_iterator_end(s, y, x), j.mode, o); }
}
template <class S, class Y, class X> void it_times(const Job &j, S s, Y y, X &x, std::vector<Pt> &o) {
    typedef std::vector<double>::const_iterator TI; TI a = j.ts.begin(), b = j.ts.end();
    if (j.time) { if (j.range) { auto q = ode::make_times_time_range(s, y, x, a, b, j.dt); walk(q.first, q.second, j.mode, o); } else walk(ode::make_times_time_iterator_begin(s, y, x, a, b, j.dt), ode::make_times_time_iterator_end<TI>(s, y, x), j.mode, o); }
    else { if (j.range) { auto q = ode::make_times_range(s, y, x, a, b, j.dt); walk(q.first, q.second, j.mode, o); } else walk(ode::make_times_iterator_begin(s, y, x, a, b, j.dt), ode::make_times_iterator_end<TI>(s, y, x), j.mode, o); }
}
template <Kind K> struct fams;
template <> struct fams<PLAIN> { static int pick(Rng &r) { int f[] = {0, 1, 3}; return f[r.range(0, 2)]; } template <class S, class Y, class X> static void go(const Job &j, S s, Y y, X &x, std::vector<Pt> &o) { if (j.fam == 0) it_const(j, s, y, x, o); else if (j.fam == 1) it_nstep(j, s, y, x, o); else it_times(j, s, y, x, o); } };
template <> struct fams<CTRL> { static int pick(Rng &r) { return r.range(2, 3); } template <class S, class Y, class X> static void go(const Job &j, S s, Y y, X &x, std::vector<Pt> &o) { if (j.fam == 2) it_adaptive(j, s, y, x, o); else it_times(j, s, y, x, o); } };
template <> struct fams<DENSE> { static int pick(Rng &r) { return r.range(0, 3); } template <class S, class Y, class X> static void go(const Job &j, S s, Y y, X &x, std::vector<Pt> &o) { if (j.fam == 0) it_const(j, s, y, x, o); else if (j.fam == 1) it_nstep(j, s, y, x, o); else if (j.fam == 2) it_adaptive(j, s, y, x, o); else it_times(j, s, y, x, o); } };
template <class S, class Y, class X> void integ(const Job &j, S s, Y y, X &x, std::vector<Pt> &o) {
    Ob b{&o}; switch (j.fam) { case 0: ode::integrate_const(s, y, x, j.t0, j.t1, j.dt, b); break; case 1: ode::integrate_n_steps(s, y, x, j.t0, j.dt, j.n, b); break; case 2: ode::integrate_adaptive(s, y, x, j.t0, j.t1, j.dt, b); break; default: ode::integrate_times(s, y, x, j.ts.begin(), j.ts.end(), j.dt, b); }
}
template <Kind K, class S, class Y, class X> void forms(int form, const Job &j, S &s, Y &y, X &x, std::vector<Pt> &o) {
    switch (form) { case 0: fams<K>::go(j, s, y, x, o); break; case 1: fams<K>::go(j, boost::ref(s), y, x, o); break; case 2: fams<K>::go(j, std::ref(s), std::ref(y), x, o); break; default: fams<K>::go(j, s, boost::ref(y), x, o); }
}
static Job mkjob(Rng &r, int fam, Kind k, bool mock) {
    Job j; j.fam = fam; j.mode = r.range(0, 4); j.time = r.coin(0.6); j.range = r.coin(); double dir = r.sign(); long n = r.coin(0.15) ? r.range(0, 2) : r.range(0, mock ? 60 : 25); j.n = n;
    if (r.coin()) { int bits = mock ? r.range(0, 10) : r.range(3, 6); j.t0 = r.coin(0.3) ? 0 : r.dy(-20, 20, 8); j.dt = dir * std::ldexp(double(r.range(1, mock ? 15 : 3)), -bits); int w = r.range(0, 2); j.t1 = j.t0 + double(n) * j.dt + (w == 0 ? 0 : w == 1 ? j.dt / 4 : j.dt * 3 / 4); }
    else { j.t0 = r.coin(0.3) ? 0 : r.uni(-20, 20); j.dt = dir * (mock ? r.logu(1e-3, 10) : r.uni(0.02, 0.3)); j.t1 = j.t0 + (double(n) + r.uni(0.05, 0.95)) * j.dt; }
    if (fam == 2) { if (j.t1 == j.t0) j.t1 = j.t0 + 0.75 * j.dt; j.dt *= r.logu(0.2, 3); }
    if (fam == 3) { int m = r.coin(0.1) ? r.range(0, 1) : r.range(2, 25); double t = j.t0, sc = std::fabs(j.dt) * r.logu(0.2, 4); bool close = r.coin(0.25); for (int i = 0; i < m; ++i) { j.ts.push_back(t); t += dir * (close && r.coin(0.4) ? 1e-9 * (1 + std::fabs(t)) * r.logu(1, 1e4) : sc * r.logu(0.05, 3)); if (!mock && std::fabs(t - j.t0) > 8) break; } }
    return j;
}
static double tend(const Job &j) { return j.fam == 0 || j.fam == 2 ? j.t1 : j.fam == 1 ? j.t0 + double(j.n) * j.dt : j.ts.empty() ? j.t0 : j.ts.back(); }
static const char *FN[] = {"const", "n-step", "adaptive", "times"};
#if PART == 0
template <Kind K, class Mk> void mock(const char *nm, int cases, Mk mk) {
    H::group(nm, cases, [&](Rng &r) { Job j = mkjob(r, fams<K>::pick(r), K, true); int form = r.range(0, 3); M::gscale() = std::max(std::fabs(j.t0), std::fabs(tend(j))); M::Script sc = r.coin(0.25) ? M::Script(r.u64(), r.uni(0, 0.6), 1.0 + 1e-9, 0.5, 1e300, r.range(1, 4)) : M::Script(r.u64(), r.uni(0, 0.6), r.uni(1.5, 6), r.uni(0.2, 0.6), std::fabs(j.dt) * r.logu(0.2, 8), r.range(1, 4)); sc.mindt = std::fabs(j.dt) / 30;
        H::describe(nm, " ", FN[j.fam], " form=", form, " mode=", j.mode, " time=", j.time, " range=", j.range, " t0=", j.t0, " t1=", j.t1, " dt=", j.dt, " n=", j.n, " times=", j.ts.size()); double s0 = j.fam == 3 && !j.ts.empty() ? j.ts[0] : j.t0;
        M::Tr ta, tb; std::vector<Pt> a, b; M::st xa = M::at(s0), xb = M::at(s0); { auto s = mk(ta, sc); M::Sy y{&ta}; integ(j, s, y, xa, a); } auto s = mk(tb, sc); M::Sy y{&tb}; forms<K>(form, j, s, y, xb, b); H::nontrivial(a.size() > 1); HCHECK(!tb.bad, "inconsistent", tb.why);
        HREQUIRE(a.size() == b.size(), "number-of-points", "iterator gives ", b.size(), " points, integrate observes ", a.size()); for (size_t i = 0; i < a.size(); ++i) { if (b[i].hast) HREQUIRE(M::near(a[i].t, b[i].t), "time", "#", i, " ", b[i].t, " expected ", a[i].t); M::st x = {{b[i].x[0], b[i].x[1]}}; HREQUIRE(M::isat(x, a[i].t), "state", "#", i, " state of time ", x[1], " expected ", a[i].t); }
        if (K != CTRL && j.fam < 2) HCHECK(long(b.size()) == long(j.n) + 1, "grid-size", b.size(), " points for n=", j.n);
        // iterators which end at a given time do not step (or try to step) beyond it
        if (j.fam >= 2) { double te = tend(j), dir = j.dt > 0 ? 1 : -1; for (auto &e : tb.ev) if (e.k == 's' || e.k == 'r') HREQUIRE(dir * (e.t + e.dt - te) <= 4 * M::tol(te, e.t), "beyond-the-end", "step from ", e.t, " by ", e.dt, " but the end is ", te); }
        if (K == PLAIN) HCHECK(tb.steps == ta.steps, "steps", tb.steps, " vs ", ta.steps); if (!(K == DENSE && j.fam == 2) && !a.empty()) HCHECK(M::isat(xb, a.back().t), "final-state", "state of time ", xb[1], " expected ", a.back().t); H::count("points", b.size()); H::count("rejections", tb.rejects); });
}
// an interval which lies against the direction of the step is an empty range: no point, no step, the state untouched
template <Kind K, class Mk> void reversed(const char *nm, int cases, Mk mk) {
    H::group(nm, cases, [&](Rng &r) { int fam; do fam = fams<K>::pick(r); while (fam != 0 && fam != 2); Job j = mkjob(r, fam, K, true); int form = r.range(0, 3); j.t1 = j.t0 - j.dt * r.logu(0.01, 50); M::Script sc(r.u64(), r.uni(0, 0.6), r.uni(1.5, 6), r.uni(0.2, 0.6), std::fabs(j.dt) * r.logu(0.2, 8), r.range(1, 4)); sc.mindt = std::fabs(j.dt) / 30; M::gscale() = std::max(std::fabs(j.t0), std::fabs(j.t1));
        H::describe(nm, " ", FN[j.fam], " form=", form, " mode=", j.mode, " time=", j.time, " range=", j.range, " t0=", j.t0, " t1=", j.t1, " dt=", j.dt); M::Tr tr; M::st x = M::at(j.t0), x0 = x; auto s = mk(tr, sc); M::Sy y{&tr}; std::vector<Pt> b; forms<K>(form, j, s, y, x, b); H::nontrivial(true);
        HREQUIRE(b.empty(), "reversed-not-empty", b.size(), " points"); HCHECK(tr.steps == 0 && tr.rejects == 0, "reversed-steps", tr.steps, " steps"); HCHECK(x == x0, "reversed-state", "state changed"); });
}
template <class S> struct Id {};
#else
static const double EPS = 1e-9, ACC = 600;
template <Kind K> struct Run { Rng &r; template <class Tag, class Mk> void operator()(const char *nm, Z::Kind, Tag tag, Mk mk) const {
        T::Prob p = T::Prob::make(r, r.range(2, 4), 2.0, 0.2); Job j = mkjob(r, fams<K>::pick(r), K, false); int form = r.range(0, 3); if (K == PLAIN) { j.dt *= 0.3; j.t1 = j.t0 + (j.n + 0.5) * j.dt; }
        H::describe(nm, " ", FN[j.fam], " form=", form, " mode=", j.mode, " time=", j.time, " range=", j.range, " dim=", p.n, " t0=", j.t0, " t1=", j.t1, " dt=", j.dt, " n=", j.n, " times=", j.ts.size()); T::Log la, lb; la.budget = lb.budget = 3000000; auto ya = Tag::system(p, la), yb = Tag::system(p, lb); double s0 = j.fam == 3 && !j.ts.empty() ? j.ts[0] : j.t0; auto xa = Tag::make(p.exact(s0)), xb = xa; std::vector<Pt> a, b;
        { auto s = mk(); integ(j, s, ya, xa, a); } auto s = mk(); forms<K>(form, j, s, yb, xb, b); H::nontrivial(a.size() > 1); HREQUIRE(a.size() == b.size(), "number-of-points", nm, ": iterator gives ", b.size(), " points, integrate observes ", a.size());
        bool sameSteps = K == PLAIN || j.fam == 2; for (size_t i = 0; i < a.size(); ++i) { if (b[i].hast) HREQUIRE(std::fabs(a[i].t - b[i].t) <= (sameSteps && K != PLAIN ? 1e-9 : 1e-13) * (1 + std::fabs(a[i].t)), "time", nm, " #", i, " ", b[i].t, " expected ", a[i].t); double d = T::diff(a[i].x, b[i].x, p.n); double tol = sameSteps ? 1e-8 : ACC * EPS * (1 + std::fabs(a[i].t - s0)) * p.amp(a[i].t - s0); H::maxi(std::string(nm) + "-dev", d / tol); HREQUIRE(d <= tol, "state", nm, " #", i, " at t=", a[i].t, " differs by ", d);
            if (K != PLAIN) { double e = T::diff(b[i].x, p.exact(a[i].t), p.n) / (EPS * (1 + std::fabs(a[i].t - s0)) * p.amp(a[i].t - s0)); HCHECK(e <= ACC, "accuracy", nm, " deviates by ", e, " tolerances"); } }
        if (!(K == DENSE && j.fam == 2) && !b.empty()) HCHECK(tov(xb) == b.back().x, "final-state", "differs from the last point"); H::count("points", b.size()); H::count("rhs-calls", lb.calls); } };
#endif
int main(int c, char **v) {
    H::init(c, v, "iter");
#if PART == 0
    mock<PLAIN>("mock-plain", 900, [](M::Tr &t, const M::Script &) { return M::Plain<ode::stepper_tag>(t); }); mock<PLAIN>("mock-error", 250, [](M::Tr &t, const M::Script &) { return M::Plain<ode::error_stepper_tag>(t); });
    mock<CTRL>("mock-controlled", 900, [](M::Tr &t, const M::Script &s) { return M::Ctrl<ode::controlled_stepper_tag>(t, s); }); mock<CTRL>("mock-explicit-controlled", 250, [](M::Tr &t, const M::Script &s) { return M::Ctrl<ode::explicit_controlled_stepper_tag>(t, s); }); mock<DENSE>("mock-dense", 1200, [](M::Tr &t, const M::Script &s) { return M::Dense(t, s); });
    reversed<PLAIN>("mock-reversed-plain", 60, [](M::Tr &t, const M::Script &) { return M::Plain<ode::stepper_tag>(t); }); reversed<CTRL>("mock-reversed-controlled", 60, [](M::Tr &t, const M::Script &s) { return M::Ctrl<ode::controlled_stepper_tag>(t, s); }); reversed<DENSE>("mock-reversed-dense", 120, [](M::Tr &t, const M::Script &s) { return M::Dense(t, s); });
#elif PART == 1
    H::group("plain", 300, [](Rng &r) { Run<PLAIN> f{r}; Z::zoo_plain(f, r.range(0, 4)); });
#elif PART == 2
    H::group("controlled", 250, [](Rng &r) { Run<CTRL> f{r}; Z::zoo_ctrl(f, r.range(0, Z::NCTRL - 1), EPS, EPS); });
#else
    H::group("dense", 250, [](Rng &r) { Run<DENSE> f{r}; Z::zoo_dense(f, r.range(0, Z::NDENSE - 1), EPS, EPS); });
#endif
    return H::finish();
}
