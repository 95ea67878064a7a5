// C21: distinct steppers in concurrently running threads: ThreadSanitizer watches the library, every thread's trace is compared with the same run executed alone.
// The threads run before anything else has used the stepper type, so that one-time initialisations are raced as well.  PART = group of steppers, 4: integrate functions and iterators
#define A_PART PART
#include <array>
#include <atomic>
#include <time.h>
#include <thread>
#include "act.hpp"
#if PART == 4
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#endif
using namespace A;
struct Job { std::function<void(Tr &, T::Log &)> f; };
// runs the jobs concurrently, then each alone, and compares
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void race(std::vector<std::function<void(Tr &, T::Log &)>> jobs, Rng &r) {
    size_t n = jobs.size(); std::vector<Tr> tr(n), rf(n); std::vector<std::string> err(n); std::vector<T::Log> lg(n); std::atomic<int> ready(0); std::vector<std::thread> th; std::vector<double> beg(n), end(n); std::vector<unsigned> y(n); for (auto &v : y) v = r.coin() ? 0 : r.range(1, 9);
    for (size_t i = 0; i < n; ++i) th.emplace_back([&, i] { H::worker() = true; lg[i].yield = y[i]; ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < int(n)) sched_yield(); beg[i] = now(); try { jobs[i](tr[i], lg[i]); } catch (const H::Abort &) {} catch (const std::exception &e) { err[i] = e.what(); } catch (...) { err[i] = "exception"; } end[i] = now(); if (!H::werr().empty()) err[i] = H::werr(); });
    for (auto &t : th) t.join();
    for (size_t i = 0; i < n; ++i) { T::Log l; jobs[i](rf[i], l); std::string w; HREQUIRE(err[i].empty(), "exception", "thread ", i, ": ", err[i]); HREQUIRE(l.calls == lg[i].calls, "evaluations", "thread ", i, " made ", lg[i].calls, " evaluations, alone ", l.calls); if (!same(rf[i], tr[i], 1e-12, w)) { H::violation("differs", H::cat("thread ", i, " of ", n, " differs from the run executed alone: ", w)); throw H::Abort(); } H::count("evaluations", lg[i].calls); }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) H::count(beg[i] < end[j] && beg[j] < end[i] ? "pairs-overlapping-in-time" : "pairs-not-overlapping");
    H::count("threads", long(n)); H::nontrivial();
}
#if PART != 4
static void scenario(const std::vector<Kd> &ks, int fixed, Rng &r) {
    int n = r.range(2, 6); std::vector<std::function<void(Tr &, T::Log &)>> jobs; std::vector<std::shared_ptr<Actor>> keep; std::ostringstream d;
    const Kd *common = &ks[fixed >= 0 ? fixed : r.range(0, int(ks.size()) - 1)]; bool used = r.coin(0.3) && fixed < 0; T::Log pl; Prb pp = Prb::make(r, 3); std::shared_ptr<Actor> proto;
    for (int i = 0; i < n; ++i) { const Kd *k = r.coin(0.7) || fixed >= 0 ? common : &ks[r.range(0, int(ks.size()) - 1)]; int dim = used && k == common ? 3 : r.range(1, 5); if (std::is_same<X0, std::array<double, 3>>::value) dim = 3;
        Prb p = Prb::make(r, dim); uint64_t sd = r.u64(); int ops = r.range(3, 25), how = used && k == common ? r.range(1, 2) : r.range(0, 2); d << k->name << "/" << how << " ";
        if (k == common && how && !proto) { proto = k->make(); if (used) { proto->start(pp, pl); for (int j = 0; j < 5; ++j) { Rng q(j); Tr t; proto->op(q, t); } } }
        std::shared_ptr<Actor> mine; std::shared_ptr<Actor> pr = k == common && how ? proto : nullptr; if (how == 1 && pr) mine = pr->clone(); bool reset = used && (k->flags & HIST);
        jobs.push_back([=](Tr &t, T::Log &l) { std::unique_ptr<Actor> a = mine ? mine->clone() : pr ? pr->clone() : k->make(); if (pr && (sd & 1)) { auto b = a->clone(); if (b->assign(*pr)) a = std::move(b); } if (reset) a->reset(); a->start(p, l); for (int j = 0; j < ops; ++j) { Rng q(H::mix(sd + j)); a->op(q, t); if (j == ops / 2) { auto b = a->clone(); a = std::move(b); } } }); }
    H::describe("threads=", n, " used=", used, " ", d.str()); race(jobs, r);
}
#else
template <class S> std::function<void(Tr &, T::Log &)> job(S s, Rng &r, int what) {
    T::Prob p = T::Prob::make(r, r.range(1, 4), 2, 0.4); double t0 = r.uni(-4, 4), h = r.sign() * r.uni(0.05, 0.3); int n = r.range(2, 20); vec x0 = p.exact(t0);
    return [=](Tr &t, T::Log &l) { vec x = x0; auto ob = [&](const vec &y, double tt) { t.push_back(tt); t.insert(t.end(), y.begin(), y.end()); }; T::Sys sys(p, l); double t1 = t0 + n * h; std::vector<double> ts; for (int i = 0; i <= n; ++i) ts.push_back(t0 + i * 0.7 * h);
        switch (what) { case 0: ode::integrate_const(s, sys, x, t0, t1, h, ob); break; case 1: ode::integrate_n_steps(s, sys, x, t0, h, n, ob); break; case 2: ode::integrate_adaptive(s, sys, x, t0, t1, h, ob); break; case 3: ode::integrate_times(s, sys, x, ts, h, ob); break;
        case 4: ode::integrate(sys, x, t0, t1, h, ob); break;
        default: { auto q = ode::make_times_time_range(s, sys, x, ts.begin(), ts.end(), h); for (auto i = q.first; i != q.second; ++i) ob(i->first, i->second); } } t.insert(t.end(), x.begin(), x.end()); }; }
template <class S> std::function<void(Tr &, T::Log &)> jobit(S s, Rng &r) { // adaptive iterators
    T::Prob p = T::Prob::make(r, r.range(1, 4), 2, 0.4); double t0 = r.uni(-4, 4), h = r.sign() * r.uni(0.05, 0.3); int n = r.range(2, 20); vec x0 = p.exact(t0);
    return [=](Tr &t, T::Log &l) { vec x = x0; T::Sys sys(p, l); auto q = ode::make_adaptive_time_range(s, sys, x, t0, t0 + n * h, h); for (auto i = q.first; i != q.second; ++i) { t.push_back(i->second); t.insert(t.end(), i->first.begin(), i->first.end()); } }; }
template <class S> void fam(const char *nm, S s, bool it) { H::group(nm, 60, [&](Rng &r) { std::vector<std::function<void(Tr &, T::Log &)>> jobs; int n = r.range(2, 6); std::ostringstream d; for (int i = 0; i < n; ++i) { int w = r.range(0, 5); d << w << " "; jobs.push_back(job(s, r, w)); } H::describe(nm, " threads=", n, " drivers ", d.str()); race(jobs, r); }); }
template <class S> void famit(const char *nm, S s) { H::group(H::cat(nm, "-iterator"), 40, [&](Rng &r) { std::vector<std::function<void(Tr &, T::Log &)>> jobs; int n = r.range(2, 6); for (int i = 0; i < n; ++i) jobs.push_back(r.coin(0.7) ? jobit(s, r) : job(s, r, r.range(0, 5))); H::describe(nm, " threads=", n); race(jobs, r); }); fam(nm, s, true); }
#endif
int main(int c, char **v) { H::init(c, v, "thr");
#if PART != 4
    auto ks = kinds(PART); for (size_t i = 0; i < ks.size(); ++i) H::group(ks[i].name, 25, [&](Rng &r) { scenario(ks, int(i), r); });
    H::group("mixed", 150, [&](Rng &r) { scenario(ks, -1, r); });
#else
    fam("rk4", ode::runge_kutta4<vec>(), false); fam("ab4", ode::adams_bashforth<4, vec>(), false); fam("abm4", ode::adams_bashforth_moulton<4, vec>(), false); fam("controlled-ck54", ode::make_controlled(1e-5, 1e-5, ode::runge_kutta_cash_karp54<vec>()), true); fam("controlled-dopri5", ode::make_controlled<ode::runge_kutta_dopri5<vec>>(1e-5, 1e-5), true); fam("bs", ode::bulirsch_stoer<vec>(1e-5, 1e-5), true); famit("dense-dopri5", ode::make_dense_output(1e-5, 1e-5, ode::runge_kutta_dopri5<vec>())); famit("dense-bs", ode::bulirsch_stoer_dense_out<vec>(1e-5, 1e-5)); famit("dense-rk-euler", ode::dense_output_runge_kutta<ode::euler<vec>>());
#endif
    return H::finish(); }
