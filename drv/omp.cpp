// C19: OpenMP back ends.  PART 0: algebras and split/unsplit directly; 1: steppers with openmp_range_algebra; 2: chunked openmp_state; 3: nested states
// The ThreadSanitizer build replaces the OpenMP runtime by lib/gomp.cpp (std::thread based, schedule chosen at random) because libgomp is not instrumented.
#include "par.hpp"
#include <array>
#include <omp.h>
#include <boost/numeric/odeint/external/openmp/openmp.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/util/split_adaptor.hpp>
#ifdef GOMP_SHIM
extern unsigned long gomp_shim_seed; extern long gomp_shim_regions, gomp_shim_chunks;
#else
static unsigned long gomp_shim_seed; static long gomp_shim_regions, gomp_shim_chunks;
#endif
static void setup(Rng &r, std::ostream &o) { int n = r.range(1, 7); omp_set_dynamic(0); omp_set_num_threads(n); omp_sched_t s = (omp_sched_t)r.range(1, 3); int c = r.coin() ? 0 : r.range(1, 5); omp_set_schedule(s, c); gomp_shim_seed = r.u64(); o << "threads=" << n << " schedule=" << int(s) << "," << c << " "; H::count(H::cat("cases-with-", n, "-threads")); }
static int len(Rng &r) { return r.coin(0.1) ? 0 : r.coin(0.3) ? r.range(1, 3) : r.range(1, 60); }
// ---- PART 0 ----
struct El { double v = 0; int touched = 0; };
// writes a number made of all operands in order into the first one and counts the visits
struct Rec { template <class... E> void operator()(El &a, E &...e) const { double s = a.v; int k = 1; int d[] = {0, (s += (++k) * e.v, 0)...}; (void)d; a.v = s; a.touched++; int d2[] = {0, (touch(e), 0)...}; (void)d2; } static void touch(El &e) { e.touched++; } static void touch(const El &) {} };
template <int N> struct Call;
#define CALL(N, ...) template <> struct Call<N> { template <class A, class V> static void go(V &s) { A::for_each##N(__VA_ARGS__, Rec()); } };
CALL(1, s[0]) CALL(2, s[0], s[1]) CALL(3, s[0], s[1], s[2]) CALL(4, s[0], s[1], s[2], s[3]) CALL(5, s[0], s[1], s[2], s[3], s[4]) CALL(6, s[0], s[1], s[2], s[3], s[4], s[5]) CALL(7, s[0], s[1], s[2], s[3], s[4], s[5], s[6]) CALL(8, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]) CALL(9, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8])
CALL(10, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9]) CALL(11, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10]) CALL(12, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11]) CALL(13, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12]) CALL(14, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13]) CALL(15, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14])
template <class A, class V> void calln(int n, V &s) { switch (n) { case 1: Call<1>::go<A>(s); break; case 2: Call<2>::go<A>(s); break; case 3: Call<3>::go<A>(s); break; case 4: Call<4>::go<A>(s); break; case 5: Call<5>::go<A>(s); break; case 6: Call<6>::go<A>(s); break; case 7: Call<7>::go<A>(s); break; case 8: Call<8>::go<A>(s); break; case 9: Call<9>::go<A>(s); break; case 10: Call<10>::go<A>(s); break; case 11: Call<11>::go<A>(s); break; case 12: Call<12>::go<A>(s); break; case 13: Call<13>::go<A>(s); break; case 14: Call<14>::go<A>(s); break; default: Call<15>::go<A>(s); } }
#if PART == 0
static void algebra(Rng &r) {
    std::ostringstream o; setup(r, o); int n = len(r), k = r.range(1, 15); H::describe(o.str(), "len=", n, " arity=", k); H::nontrivial(n > 1);
    std::vector<std::vector<El>> s(15, std::vector<El>(n)); for (auto &v : s) for (auto &e : v) e.v = r.uni(-1, 1); auto ref = s;
    calln<ode::openmp_range_algebra>(k, s);
    for (int i = 0; i < n; ++i) { double q = ref[0][i].v; for (int j = 1; j < k; ++j) q += (j + 1) * ref[j][i].v; HREQUIRE(s[0][i].v == q, "wrong-elements", "element ", i, " of ", n, ": ", s[0][i].v, " expected ", q); for (int j = 0; j < 15; ++j) HREQUIRE(s[j][i].touched == (j < k) && (j == 0 || s[j][i].v == ref[j][i].v), "not-once", "element ", i, " of operand ", j, " was processed ", s[j][i].touched, " times"); }
    std::vector<double> x(n); double m = 0; for (auto &v : x) { v = r.uni(-1, 1) * (r.coin(0.1) ? 100 : 1); m = std::max(m, std::fabs(v)); } HREQUIRE(ode::openmp_range_algebra::norm_inf(x) == m, "norm", "norm ", ode::openmp_range_algebra::norm_inf(x), " expected ", m); H::count("elements", n); }
template <class C> C chunk(int n, Rng &r);
static void nested(Rng &r) { std::ostringstream o; setup(r, o); int n = len(r) / 4, k = r.range(1, 15); H::describe(o.str(), "chunks=", n, " arity=", k); H::nontrivial(n > 1); typedef ode::openmp_nested_algebra<ode::range_algebra> A; std::vector<int> sz; for (int i = 0; i < n; ++i) sz.push_back(r.coin(0.2) ? 0 : r.range(1, 9));
    std::vector<std::vector<std::vector<El>>> s(15, std::vector<std::vector<El>>(n)); for (auto &v : s) for (int i = 0; i < n; ++i) { v[i].resize(sz[i]); for (auto &e : v[i]) e.v = r.uni(-1, 1); } auto ref = s; calln<A>(k, s);
    for (int i = 0; i < n; ++i) for (int l = 0; l < sz[i]; ++l) { double q = ref[0][i][l].v; for (int j = 1; j < k; ++j) q += (j + 1) * ref[j][i][l].v; HREQUIRE(s[0][i][l].v == q, "wrong-elements", "element ", l, " of chunk ", i); for (int j = 0; j < 15; ++j) HREQUIRE(s[j][i][l].touched == (j < k), "not-once", "element ", l, " of chunk ", i, " of operand ", j, " was processed ", s[j][i][l].touched, " times"); }
    ode::openmp_state<double> x(n); double m = 0; for (int i = 0; i < n; ++i) { x[i].resize(sz[i]); for (auto &v : x[i]) { v = r.uni(-1, 1) * (r.coin(0.1) ? 100 : 1); m = std::max(m, std::fabs(v)); } } HREQUIRE(ode::openmp_algebra::norm_inf(x) == m, "norm", "norm ", ode::openmp_algebra::norm_inf(x), " expected ", m); }
static void splitting(Rng &r) { std::ostringstream o; setup(r, o); int n = len(r), c = r.coin(0.2) ? 0 : r.range(1, 12); H::describe(o.str(), "split ", n, " into ", c); H::nontrivial(n > 0);
    std::vector<double> x(n), y(r.range(0, 9), 7.0); for (auto &v : x) v = r.uni(-1, 1); auto x0 = x; ode::openmp_state<double> s(c); if (r.coin()) for (auto &v : s) v.resize(r.range(0, 5), 3.0); ode::split(x, s); HREQUIRE(x == x0, "input-changed", "split changed its source"); HREQUIRE(c == 0 ? int(s.size()) == omp_get_max_threads() : int(s.size()) == c, "chunks", s.size(), " chunks");
    std::vector<double> j; for (auto &v : s) j.insert(j.end(), v.begin(), v.end()); HREQUIRE(j == x, "split", "joined chunks differ from the source"); ode::unsplit(s, y); HREQUIRE(y == x, "unsplit", "unsplit gives ", y.size(), " elements"); size_t lo = ~size_t(0), hi = 0; for (size_t i = 0; i + 1 < s.size(); ++i) { lo = std::min(lo, s[i].size()); hi = std::max(hi, s[i].size()); } HREQUIRE(s.size() < 2 || hi == lo, "chunk-sizes", "chunks of ", lo, " to ", hi);
    // offsets used by the distributing adaptors
    for (size_t p = 1; p < 9; ++p) { size_t e = 0; for (size_t i = 0; i < p; ++i) { auto q = ode::detail::make_split_range(x, i, p); size_t b = q.begin() - x.begin(), f = q.end() - x.begin(); HREQUIRE(b == e && f >= b && f - b - n / p <= 1, "split-adaptor", "part ", i, " of ", p, ": ", b, "..", f, " after ", e); e = f; } HREQUIRE(e == size_t(n), "split-adaptor", "covers ", e, " of ", n); }
    // copies and resizes between states
    ode::openmp_state<double> t; HREQUIRE(ode::same_size(s, s), "same-size", ""); ode::resize(t, s); HREQUIRE(ode::same_size(s, t), "resize", "sizes differ"); ode::copy(s, t); HREQUIRE(static_cast<std::vector<std::vector<double>> &>(s) == t, "copy", "content differs"); }
#endif
// ---- runs ----
template <class C> struct FlatN { template <class X> static vec get(const X &x) { vec v; for (auto &c : x) v.insert(v.end(), c.begin(), c.end()); return v; } template <class X, class M> static void set(X &x, const vec &v, const M &) { auto i = v.begin(); for (auto &c : x) for (auto &e : c) e = *i++; } };
template <> struct Flat<ode::openmp_state<double>> : FlatN<int> {};
template <class C> struct Flat<std::vector<std::vector<C>>> : FlatN<int> {};
template <class C, size_t N> struct Flat<std::vector<std::array<C, N>>> : FlatN<int> {};
int main(int c, char **v) { H::init(c, v, "omp");
#if PART == 0
    H::group("range-algebra", 400, algebra); H::group("nested-algebra", 400, nested); H::group("split", 400, splitting);
#elif PART == 1
    for (int w = 0; w < 13; ++w) H::group(H::cat("range-", w), 25, [&](Rng &r) { std::ostringstream o; setup(r, o); vec x(r.coin(0.2) ? 1 : r.range(1, 40)); for (auto &e : x) e = r.uni(-1, 1); compare<vec, ode::openmp_range_algebra>(r, x, w, o.str()); });
#elif PART == 2
    for (int w = 0; w < 13; ++w) H::group(H::cat("state-", w), 25, [&](Rng &r) { std::ostringstream o; setup(r, o); vec x(r.coin(0.2) ? 1 : r.range(1, 40)); for (auto &e : x) e = r.uni(-1, 1); ode::openmp_state<double> s(r.coin(0.2) ? 0 : r.range(1, 9)); ode::split(x, s); o << "chunks=" << s.size() << " "; compare<ode::openmp_state<double>, typename ode::algebra_dispatcher<ode::openmp_state<double>>::algebra_type>(r, s, w, o.str()); });
#else
    for (int w = 0; w < 13; ++w) { typedef std::vector<std::array<double, 3>> X; H::group(H::cat("arrays-", w), 15, [&](Rng &r) { std::ostringstream o; setup(r, o); X x(r.range(1, 20)); for (auto &c : x) for (auto &e : c) e = r.uni(-1, 1); compare<X, ode::openmp_nested_algebra<ode::array_algebra>>(r, x, w, o.str()); }); }
#endif
    H::count("parallel-regions", gomp_shim_regions); H::count("chunks-scheduled", gomp_shim_chunks); return H::finish(); }
