// C20: MPI back end.  PART 0: split/unsplit/copy/resize/norm; 1: steppers against the serial run; 2: states on sub-communicators.
// Every rank generates the same problem; verdicts of all ranks are gathered at the end of each case; a wall-clock alarm detects ranks waiting for each other.
#include "par.hpp"
#include <boost/mpi.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>
#include <boost/numeric/odeint/external/mpi/mpi.hpp>
namespace mpi = boost::mpi;
typedef ode::mpi_state<vec> MS;
template <> struct Flat<MS> {
    static vec get(const MS &x) { static Rng lag(getpid()); if (lag.coin(0.01)) usleep(lag.range(20, 400)); std::vector<vec> p; mpi::all_gather(x.world, x(), p); vec v; for (auto &q : p) v.insert(v.end(), q.begin(), q.end()); return v; }
    template <class M> static void set(MS &x, const vec &v, const M &m) { int k = int(m().size()), e = mpi::scan(m.world, k, std::plus<int>()); x().assign(v.begin() + (e - k), v.begin() + e); } };
static void barrier_alarm() { signal(SIGALRM, H::on_alarm); alarm(40); }
// run a group on all ranks of w
template <class F> void mgroup(const mpi::communicator &w, const std::string &name, int n, F f) {
    H::group(name, n, [&](Rng &r) {
        barrier_alarm(); H::worker() = true; H::werr() = "";
        try { f(r); } catch (const H::Abort &) {} catch (const std::exception &e) { if (H::werr().empty()) H::werr() = H::cat("unexpected-exception: ", e.what()); }
        H::worker() = false; std::string e = H::werr(); if (!e.empty()) e = H::cat("rank ", w.rank(), ": ", e); std::vector<std::string> all; mpi::gather(w, e, all, 0); for (auto &s : all) if (!s.empty()) { size_t a = s.find(": ") + 2; H::violation(s.substr(a, s.find(':', a) - a), s); }
        H::count(H::cat("cases-with-", w.size(), "-ranks")); alarm(0); }); }
static vec rnd(Rng &r, int n) { vec v(n); for (auto &e : v) e = r.uni(-1, 1) * (r.coin(0.1) ? 100 : 1); return v; }
static int len(Rng &r) { return r.coin(0.1) ? 0 : r.coin(0.3) ? r.range(1, 4) : r.range(1, 60); }
// state with given data and random partition
static MS spread(Rng &r, const mpi::communicator &w, const vec &v) { MS s(w); std::vector<size_t> c(w.size() + 1, 0); c[w.size()] = v.size(); for (int i = 1; i < w.size(); ++i) c[i] = r.range(0, int(v.size())); std::sort(c.begin(), c.end()); s().assign(v.begin() + c[w.rank()], v.begin() + c[w.rank() + 1]); return s; }
#if PART == 0
template <class I> void split(Rng &r, const mpi::communicator &w) {
    int n = len(r), pre = r.range(0, 6); vec x = rnd(r, n), x0 = x; H::describe("split ", n, " between ", w.size(), " on ", w.rank()); H::nontrivial(n > 0); ode::mpi_state<I> s(w); s().resize(pre); vec root = w.rank() == 0 || r.coin() ? x : vec(); int extra = r.range(0, 3);
    ode::split(root, s); int k = int(s().size()), e = mpi::scan(w, k, std::plus<int>()), tot = mpi::all_reduce(w, k, std::plus<int>()); int mx = mpi::all_reduce(w, k, mpi::maximum<int>()), mn = mpi::all_reduce(w, k, mpi::minimum<int>());
    HCHECK(tot == n && mx - mn <= 1, "split-sizes", "pieces of ", mn, " to ", mx, ", sum ", tot); if (tot == n) HCHECK(std::equal(s().begin(), s().end(), x.begin() + (e - k)), "split-content", "piece ", e - k, "..", e);
    vec y(w.rank() == 0 || r.coin() ? n + extra : 0, 7.5), y0 = y; ode::unsplit(s, y); if (w.rank() == 0) { HCHECK(vec(y.begin(), y.begin() + n) == x, "unsplit", "joined data differ"); HCHECK(int(y.size()) == n + extra && std::count(y.begin() + n, y.end(), 7.5) == extra, "unsplit-excess", "elements after the end were changed"); } else HCHECK(y == y0, "unsplit-others", "target on another rank was changed"); }
static void states(Rng &r, const mpi::communicator &w) {
    vec v = rnd(r, len(r)), u = rnd(r, int(v.size())); H::describe("states ", v.size(), " on ", w.size()); H::nontrivial(v.size() > 1); Rng r2 = r; MS a = spread(r, w, v), b = spread(r2, w, u), c; vec al = a();
    typedef ode::algebra_dispatcher<MS>::algebra_type A; double m = 0; for (double e : v) m = std::max(m, std::fabs(e)); double q = A::norm_inf(a); HCHECK(q == m, "norm", "norm ", q, " expected ", m);
    vec jn(w.rank() == 0 ? v.size() + 2 : 0, 7.5); ode::unsplit(a, jn); if (w.rank() == 0) HCHECK(std::equal(v.begin(), v.end(), jn.begin()) && jn[v.size()] == 7.5 && jn.back() == 7.5, "unsplit-uneven", "the data of unevenly filled ranks are joined wrongly"); HCHECK(a() == al, "unsplit-source", "");
    ode::copy(b, a); HCHECK(a() == b(), "copy", ""); a() = al; ode::resize(c, a); HCHECK(c().size() == a().size(), "resize", "");
    bool same = ode::same_size(c, a); HCHECK(same, "same-size", "equal sizes"); int who = r.range(0, w.size() - 1); if (w.rank() == who) c().resize(c().size() + 1); same = ode::same_size(c, a); HCHECK(!same, "same-size-local", "states different on rank ", who, " count as equal"); HCHECK(!ode::same_size(a, c), "same-size-local", "states different on rank ", who, " count as equal"); ode::resize(c, a); same = ode::same_size(c, a); HCHECK(same, "same-size", "after resize");
    double f = r.uni(-2, 2), g = r.uni(-2, 2); A::for_each3(c, a, b, ode::default_operations::scale_sum2<double, double>(f, g)); double d = 0; for (size_t i = 0; i < al.size(); ++i) d = std::max(d, std::fabs(c()[i] - (f * al[i] + g * b()[i]))); HCHECK(d < 1e-12 && a() == al, "for-each", "difference ", d);
    double s = A::norm_inf(b), mu = 0; for (double e : u) mu = std::max(mu, std::fabs(e)); HCHECK(s == mu, "norm", "norm ", s, " expected ", mu); }
#endif
// run on the ranks of w and compare with the serial run
static void against_serial(Rng &r, const mpi::communicator &w, int which) {
    vec v = rnd(r, r.coin(0.2) ? r.range(1, 3) : r.range(1, 40)); for (auto &e : v) e = std::fmod(e, 1.0); bool even = r.coin(); MS x(w); if (even) ode::split(v, x); else x = spread(r, w, v); double t = r.uni(-3, 3), h = r.sign() * r.uni(0.02, 0.3); int n = r.range(1, 5); T::Log l1, l2; std::vector<double> a, b;
    H::describe("stepper=", which, " len=", v.size(), " ranks=", w.size(), " h=", h, " n=", n, even ? " split" : " uneven"); H::nontrivial(w.size() > 1); MS x0 = x;
    Steppers<MS, ode::algebra_dispatcher<MS>::algebra_type>::run(which, x, t, h, n, a, l1); Steppers<vec, ode::range_algebra>::run(which, v, t, h, n, b, l2);
    HCHECK(x() == x0(), "input-changed", ""); HCHECK(l1.calls == l2.calls && a.size() == b.size(), "different-steps", l1.calls, " evaluations, serial ", l2.calls); if (a.size() == b.size()) { double d = T::diff(a, b, int(a.size())); HCHECK(d <= 1e-13, "differs", "differs from the serial run by ", d); }
    std::vector<vec> all; mpi::all_gather(w, a, all); for (auto &o : all) HCHECK(o == a, "ranks-disagree", "traces of two ranks differ"); }
// one stepper, redistribution of the data between the steps
template <class S> static void redistribute(Rng &r, const mpi::communicator &w, S s) {
    ode::runge_kutta_cash_karp54<vec, double, vec, double, ode::range_algebra> ref; int k = r.range(2, 6), n0 = r.range(0, 30); vec v = rnd(r, n0); double t = r.uni(-2, 2), h = r.uni(0.01, 0.2); H::describe("redistribute len=", n0, " ranks=", w.size(), " times=", k); H::nontrivial(n0 > 0); T::Log l; Sy y{nullptr, &l};
    for (int i = 0; i < k; ++i) { MS x = spread(r, w, v); s.do_step(y, x, t, h); ref.adjust_size(v); ref.do_step(y, v, t, h); t += h; vec g = Flat<MS>::get(x); if (g.size() != v.size()) { HCHECK(false, "redistribute-size", g.size(), " elements, expected ", v.size()); return; } double d = T::diff(g, v, int(v.size())); HCHECK(d <= 1e-13, "redistribute", "differs by ", d, " after step ", i); } }
int main(int c, char **a) {
    mpi::environment env(c, a); mpi::communicator world; std::vector<char *> av(a, a + c); if (world.rank()) for (int i = 1; i < c; ++i) if (!std::strcmp(a[i], "--out") || !std::strcmp(a[i], "--mark")) av[i + 1] = (char *)""; H::init(c, av.data(), "mpi"); if (world.rank()) H::g().out = H::g().mark = "";
#if PART == 0
    mgroup(world, "split-vector", 150, [&](Rng &r) { split<vec>(r, world); }); mgroup(world, "states", 200, [&](Rng &r) { states(r, world); });
#elif PART == 1
    for (int w = 0; w < 13; ++w) mgroup(world, H::cat("serial-", w), 10, [&](Rng &r) { against_serial(r, world, w); });
    typedef ode::algebra_dispatcher<MS>::algebra_type A; mgroup(world, "redistribute", 60, [&](Rng &r) { redistribute(r, world, ode::runge_kutta_cash_karp54<MS, double, MS, double, A, ode::default_operations, ode::always_resizer>()); });
#else
    // the ranks are divided into groups which work on different problems
    for (int w = 0; w < 13; ++w) mgroup(world, H::cat("subgroups-", w), 6, [&](Rng &r) {
        int k = r.range(1, 3); std::vector<int> col(world.size()); for (auto &e : col) e = r.range(0, k - 1); uint64_t s = r.u64(); int mine = col[world.rank()]; mpi::communicator sub = world.split(mine); Rng q(s + mine); if (r.coin(0.2) && mine == 1) { H::describe("idle"); return; } against_serial(q, sub, w); });
#endif
    return H::finish(); }
