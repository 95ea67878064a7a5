// Times of other types in the integrate functions and iterators: float, long double, cpp_bin_float_50, long long and boost.units
// quantities, with scripted steppers whose state is the time it belongs to.  PART 1..4: the integrate functions of C01..C04, 6: iterators.
#include "h.hpp"
#include <array>
#include <boost/units/quantity.hpp>
#include <boost/units/systems/si/time.hpp>
#include <boost/units/io.hpp>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/numeric/odeint/stepper/stepper_categories.hpp>
#include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/default_operations.hpp>
#include <boost/numeric/odeint/util/resizer.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
using H::Rng; namespace ode = boost::numeric::odeint; namespace un = boost::units; namespace mp = boost::multiprecision;
template <class T> struct Ty { typedef T V; static T mk(V v) { return v; } static V num(T t) { return t; } };
template <> struct Ty<un::quantity<un::si::time, double>> { typedef double V; static un::quantity<un::si::time, double> mk(V v) { return v * un::si::seconds; } static V num(const un::quantity<un::si::time, double> &t) { return t.value(); } };
template <class V> V absv(V a) { return a < V(0) ? V(-a) : a; }
template <class V> double dbl(const V &v) { return static_cast<double>(v); }
template <class T> struct W {
    typedef typename Ty<T>::V V; typedef std::array<V, 2> st; typedef Ty<T> N;
    static constexpr bool integral = std::numeric_limits<V>::is_integer;
    static st at(V t) { return st{{V(3 * t + 1), t}}; } static st at(T t, int) { return at(N::num(t)); }
    struct Tr { std::string why; std::vector<std::pair<V, V>> obs; long steps = 0, rejects = 0, budget = 200000; V scale = 1, end = 0, dir = 1; bool past = false; void fail(const std::string &s) { if (why.empty()) why = s; } V tol() const { return integral ? V(0) : V(V(24) * std::numeric_limits<V>::epsilon() * scale * (1 + V(steps + rejects) * V(accum ? 1 : 0))); } bool accum = false; bool near(V a, V b) const { return absv(V(a - b)) <= tol(); } };
    struct Common { typedef st state_type; typedef st deriv_type; typedef V value_type; typedef T time_type; typedef ode::range_algebra algebra_type; typedef ode::default_operations operations_type; typedef ode::never_resizer resizer_type; Tr *tr; explicit Common(Tr &t) : tr(&t) {}
        void check(const st &x, V t, V dt, const char *w) { if (!tr->near(x[1], t)) tr->fail(H::cat(w, " got a state of time ", dbl(x[1]), " with t=", dbl(t))); if (dt == V(0)) tr->fail("step of size 0"); if ((dt > V(0)) != (tr->dir > V(0))) tr->fail("step in the wrong direction"); if (tr->steps + tr->rejects > tr->budget) throw H::Budget(); } };
    struct Plain : Common { typedef ode::stepper_tag stepper_category; using Common::Common; template <class S> void do_step(S, st &x, T t, T dt) { V a = N::num(t), b = N::num(dt); this->check(x, a, b, "do_step"); x = at(V(a + b)); this->tr->steps++; } };
    struct Ctrl : Common { typedef ode::controlled_stepper_tag stepper_category; std::shared_ptr<Rng> r; double pr; V big; int left = 0; Ctrl(Tr &t, uint64_t s, double p, V b) : Common(t), r(new Rng(s)), pr(p), big(b) {}
        template <class S> ode::controlled_step_result try_step(S, st &x, T &t, T &dt) { V a = N::num(t), b = N::num(dt); this->check(x, a, b, "try_step"); if (left < 4 && absv(b) > big / 50 && r->coin(pr)) { ++left; this->tr->rejects++; dt = N::mk(V(b * V(r->uni(0.3, 0.9)))); return ode::fail; } left = 0; V c = a + b; x = at(c); t = N::mk(c); V d = b * V(r->coin() ? r->uni(0.7, 3) : 1.0); if (absv(b) < big / 50) d = 2 * b; if (absv(d) > big) d = b > V(0) ? big : V(-big); dt = N::mk(d); this->tr->steps++; return ode::success; } };
    struct Dense : Common { typedef ode::dense_output_stepper_tag stepper_category; std::shared_ptr<Rng> r; V big; st x, xo; V t, to, dt; Dense(Tr &q, uint64_t s, V b) : Common(q), r(new Rng(s)), big(b) {}
        template <class S> void initialize(const S &x0, T t0, T d) { t = to = N::num(t0); x = st{{x0[0], x0[1]}}; dt = N::num(d); if (!this->tr->near(x[1], t)) this->tr->fail("initialize got a state of another time"); }
        template <class S> std::pair<T, T> do_step(S) { this->check(x, t, dt, "dense do_step"); xo = x; to = t; t = t + dt; x = at(t); dt = dt * V(r->coin() ? r->uni(0.7, 3) : 1.0); if (absv(dt) < big / 50) dt = 2 * dt; if (absv(dt) > big) dt = dt > V(0) ? big : V(-big); this->tr->steps++; return std::make_pair(N::mk(to), N::mk(t)); }
        template <class S> void calc_state(T q, S &o) const { V v = N::num(q); V lo = std::min(to, t), hi = std::max(to, t), e = this->tr->tol(); if (v < lo - e || v > hi + e) const_cast<Dense *>(this)->tr->fail(H::cat("calc_state at ", dbl(v), " outside of [", dbl(lo), ",", dbl(hi), "]")); st c = at(v); o[0] = c[0]; o[1] = c[1]; }
        template <class S> void calc_state(T q, const S &o) const { calc_state(q, const_cast<S &>(o)); }
        const st &current_state() const { return x; } const st &previous_state() const { return xo; } T current_time() const { return N::mk(t); } T previous_time() const { return N::mk(to); } T current_time_step() const { return N::mk(dt); } };
    struct Sy { template <class X, class D> void operator()(const X &, D &, T) const {} };
    struct Ob { Tr *tr; void operator()(const st &x, T t) const { V v = N::num(t); if (!tr->near(x[1], v)) tr->fail(H::cat("observer got a state of time ", dbl(x[1]), " with t=", dbl(v))); tr->obs.push_back({x[1], v}); if (tr->obs.size() > 100000) throw H::Budget(); } };
    static V rnd(Rng &r, double a, double b, bool dy) { if (integral) return V(r.range(int(a), int(b))); if (dy) return V(std::ldexp(double(r.range(int(a * 64), int(b * 64))), -6)); return V(V(r.uni(a, b)) + V(V(r.uni(-1, 1)) * V(1e-13))); }
    template <class S> static void walk(int fam, S s, T t0, T t1, T dt, int n, const std::vector<T> &ts, st &x, Tr &tr) {
        Sy y; auto go = [&](auto b, auto e) { for (; b != e; ++b) { auto &&v = *b; Ob{&tr}(v.first, v.second); } };
        if constexpr (!std::is_same<S, Ctrl>::value) { if (fam == 0) { go(ode::make_const_step_time_iterator_begin(s, y, x, t0, t1, dt), ode::make_const_step_time_iterator_end(s, y, x)); return; } if (fam == 1) { go(ode::make_n_step_time_iterator_begin(s, y, x, t0, dt, size_t(n)), ode::make_n_step_time_iterator_end(s, y, x)); return; } }
        if constexpr (!std::is_same<S, Plain>::value) if (fam == 2) { go(ode::make_adaptive_time_iterator_begin(s, y, x, t0, t1, dt), ode::make_adaptive_time_iterator_end(s, y, x)); return; }
        if (fam == 3) go(ode::make_times_time_iterator_begin(s, y, x, ts.begin(), ts.end(), dt), ode::make_times_time_iterator_end<typename std::vector<T>::const_iterator>(s, y, x)); }
    template <class S> static void run(Rng &r, const char *nm, S s, Tr &tr, int fam, bool it, V t0, V dt, int n, bool dy) {
        double dir = dt > V(0) ? 1 : -1; V t1; std::vector<T> ts; std::vector<V> tv;
        if (integral || dy) t1 = t0 + V(n) * dt; else t1 = t0 + (V(n) + V(0.5)) * dt;
        if (fam == 3) { V t = t0; int m = r.coin(0.1) ? r.range(0, 1) : r.range(2, 40); for (int i = 0; i < m; ++i) { tv.push_back(t); ts.push_back(N::mk(t)); t += integral ? V(dir > 0 ? r.range(1, 6) : -r.range(1, 6)) : V(dt * V(r.uni(0.05, 4))); } t1 = tv.empty() ? t0 : tv.back(); }
        if (fam == 2 && t1 == t0) t1 = t0 + dt;
        tr.dir = dt; tr.end = t1; tr.scale = V(1) + absv(t0) + absv(t1) + absv(V(t0 + V(n) * dt)); tr.accum = fam >= 2 || (!std::is_same<S, Plain>::value); st x = at(t0);
        H::describe(nm, " family=", fam, it ? " iterator" : "", " t0=", dbl(t0), " t1=", dbl(t1), " dt=", dbl(dt), " n=", n, " points=", ts.size()); H::nontrivial(fam == 3 ? ts.size() > 1 : n > 0); size_t ret = 0; T rt = N::mk(t0); T a = N::mk(t0), b = N::mk(t1), d = N::mk(dt); Sy y; Ob o{&tr};
        if (it) walk(fam, s, a, b, d, n, ts, x, tr); else if (fam == 0) ret = ode::integrate_const(s, y, x, a, b, d, o); else if (fam == 1) rt = ode::integrate_n_steps(s, y, x, a, d, size_t(n), o); else if (fam == 2) ret = ode::integrate_adaptive(s, y, x, a, b, d, o); else ret = ode::integrate_times(s, y, x, ts.begin(), ts.end(), d, o);
        HCHECK(tr.why.empty(), "inconsistent", tr.why); auto &ob = tr.obs; Tr gr = tr; gr.accum = false; /* the grid itself must not drift */
        if (fam < 2) { HREQUIRE(long(ob.size()) == n + 1, "grid-size", ob.size(), " observations, expected ", n + 1); for (int k = 0; k <= n; ++k) HREQUIRE(gr.near(ob[k].second, V(t0 + V(k) * dt)), "grid", "observation ", k, " at ", dbl(ob[k].second), " expected ", dbl(V(t0 + V(k) * dt)), " off by ", dbl(V(ob[k].second - (t0 + V(k) * dt)))); if (!it && fam == 1) HCHECK(gr.near(N::num(rt), V(t0 + V(n) * dt)), "returned-time", dbl(N::num(rt))); }
        if (fam == 2) { HREQUIRE(ob.size() >= 2 && ob[0].second == t0, "first", ob.size()); HREQUIRE(tr.near(ob.back().second, t1), "end", "last observation at ", dbl(ob.back().second), " off by ", dbl(V(ob.back().second - t1))); for (size_t k = 1; k < ob.size(); ++k) HREQUIRE(dir * dbl(V(ob[k].second - ob[k - 1].second)) > 0, "monotone", "observation ", k); if (!it) HCHECK(tr.near(x[1], t1), "final-state", dbl(x[1])); }
        if (fam == 3) { HREQUIRE(ob.size() == tv.size(), "points", ob.size(), " observations, expected ", tv.size()); for (size_t k = 0; k < tv.size(); ++k) HREQUIRE(it ? tr.near(ob[k].second, tv[k]) : ob[k].second == tv[k], "times", "observation ", k, " off by ", dbl(V(ob[k].second - tv[k]))); }
        if (!it && fam == 2) HCHECK(long(ret) == tr.steps && ret + 1 == ob.size(), "returned-steps", ret, " but ", tr.steps, " steps"); if (!it && (fam == 0 || fam == 3) && std::is_same<S, Plain>::value) HCHECK(long(ret) == tr.steps, "returned-steps", ret, " but ", tr.steps, " steps");
        H::count("observations", ob.size()); H::count("steps", tr.steps); H::count("rejections", tr.rejects); }
    static void groups(const std::string &nm, std::vector<int> fams, bool it) {
        for (int kind = 0; kind < (integral ? 1 : 3); ++kind) { static const char *KN[] = {"plain", "controlled", "dense"}; std::string g = nm + "-" + KN[kind];
            H::group(g, 120, [=](Rng &r) { int fam = fams[r.range(0, int(fams.size()) - 1)]; if (it && kind == 1 && fam < 2) fam = 2 + r.range(0, 1); if (it && kind == 0 && fam == 2) fam = 3; bool dy = r.coin(0.4); int n = r.coin(0.1) ? r.range(0, 2) : r.coin(0.15) ? r.range(200, 2000) : r.range(1, 80); V t0 = r.coin(0.2) ? V(0) : rnd(r, -20, 20, dy), dt = integral ? V(r.range(1, 5)) : dy ? V(std::ldexp(double(r.range(1, 7)), -4)) : rnd(r, 0.01, 1.5, false); if (std::is_same<V, float>::value && n > 80) n = 80; if (r.coin()) dt = -dt; Tr tr; uint64_t sd = r.u64(); V big = V(absv(dt) * V(integral ? 1 : 8)); double pr = r.uni(0, 0.5);
                if (kind == 0) run(r, g.c_str(), Plain(tr), tr, fam, it, t0, dt, n, dy); else if (kind == 1) { if constexpr (!integral) run(r, g.c_str(), Ctrl(tr, sd, pr, big), tr, fam, it, t0, dt, n, dy); } else { if constexpr (!integral) run(r, g.c_str(), Dense(tr, sd, big), tr, fam, it, t0, dt, n, dy); } }); } }
};
int main(int c, char **v) {
    H::init(c, v, "int_time"); bool it = PART == 6; std::vector<int> f; if (it) f = {0, 1, 2, 3}; else f = {PART - 1};
    W<float>::groups("float", f, it); W<long double>::groups("long-double", f, it); W<long long>::groups("integer", f, it);
#ifndef BASIC_TIMES
    W<mp::number<mp::cpp_bin_float<50>, mp::et_off>>::groups("cpp_bin_float_50", f, it); W<un::quantity<un::si::time, double>>::groups("seconds", f, it);
#endif
    return H::finish();
}
