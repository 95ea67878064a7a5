// C16: algebras and operations under an instrumented element operation that records the addresses it is given.
// PART 0: standard containers, scalars, default operations; 1: ublas, Eigen, GSL, multi_array; 2: thrust (host back end); 3: fusion sequences
#define BOOST_FUSION_INVOKE_MAX_ARITY 15
#define BOOST_RESULT_OF_NUM_ARGS 15
#include "h.hpp"
#include <array>
#include <deque>
#include <list>
#include <tuple>
#include <complex>
#if PART == 2
#include <thrust/host_vector.h>
#include <thrust/device_vector.h>
#endif
#include <boost/numeric/odeint/config.hpp>
#include <boost/preprocessor/repetition/enum.hpp>
#include <boost/preprocessor/repetition/repeat_from_to.hpp>
#include <boost/preprocessor/repetition/enum_shifted_params.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
#include <boost/numeric/odeint/algebra/algebra_dispatcher.hpp>
#include <boost/numeric/odeint/algebra/default_operations.hpp>
#if PART == 1 || PART == 3
#include <boost/fusion/container.hpp>
#include <boost/fusion/sequence.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra_dispatcher.hpp>
#include <boost/numeric/odeint/algebra/multi_array_algebra.hpp>
#include <boost/numeric/odeint/util/multi_array_adaption.hpp>
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/external/eigen/eigen.hpp>
#include <boost/numeric/odeint/external/gsl/gsl_wrapper.hpp>
#endif
#if PART == 2
#include <boost/numeric/odeint/external/thrust/thrust.hpp>
#endif
using H::Rng; namespace ode = boost::numeric::odeint;
typedef std::vector<std::vector<const void *>> Calls;
struct Rec { Calls *c; typedef void result_type; template <class... A> void operator()(A &...a) const { c->push_back(std::vector<const void *>{static_cast<const void *>(&a)...}); } };
// every call must get the i-th elements of all operands, each i exactly once
template <class AD> void judge(const char *nm, int k, int n, const Calls &c, std::vector<std::vector<const void *>> ad, AD) {
    HREQUIRE(int(c.size()) == n, "calls", nm, " for_each", k, ": ", c.size(), " calls for ", n, " elements"); std::vector<int> seen(n);
    for (auto &q : c) { HREQUIRE(int(q.size()) == k, "operands", nm, " for_each", k); int i = 0; while (i < n && ad[0][i] != q[0]) ++i; HREQUIRE(i < n, "foreign-element", nm, " for_each", k, ": first operand's element is none of the state's"); ++seen[i];
        for (int j = 0; j < k; ++j) HREQUIRE(q[j] == ad[j][i], "correspondence", nm, " for_each", k, ": operand ", j + 1, " of element ", i, " is not its element ", i); }
    for (int i = 0; i < n; ++i) HREQUIRE(seen[i] == 1, "once", nm, " for_each", k, ": element ", i, " processed ", seen[i], " times"); H::count("element-operations", n);
}
#define EL(z, i, d) *s[i]
// the last operands are const in steppers' calls; here half of the cases pass const references
#define CE(z, i, d) const_cast<const St &>(*s[i + 1])
#if PART == 3
#define IFMUT(x)
#else
#define IFMUT(x) else x
#endif
#define ONE(z, k, d) { Calls c; if (cst) { a.for_each##k(*s[0] BOOST_PP_IF(BOOST_PP_DEC(k), BOOST_PP_COMMA, BOOST_PP_EMPTY)() BOOST_PP_ENUM(BOOST_PP_DEC(k), CE, ~), Rec{&c}); } IFMUT(a.for_each##k(BOOST_PP_ENUM(k, EL, ~), Rec{&c});) judge(nm, k, n, c, ad, 0); }
#include <boost/preprocessor/control/if.hpp>
#include <boost/preprocessor/arithmetic/dec.hpp>
#include <boost/preprocessor/punctuation/comma.hpp>
#include <boost/preprocessor/facilities/empty.hpp>
template <class Alg, class St, class Addr> void each(const char *nm, Alg a, std::vector<St *> s, int n, bool cst, Addr addr) { std::vector<std::vector<const void *>> ad; for (auto *x : s) ad.push_back(addr(*x)); BOOST_PP_REPEAT_FROM_TO(1, 16, ONE, ~) }
// values with the largest magnitude at a random position, both signs, ties, zeros
static std::vector<double> values(Rng &r, int n) { std::vector<double> v(n); int m = r.range(0, 3); for (auto &x : v) x = m == 0 ? r.uni(-1, 1) : m == 1 ? -r.logu(1e-12, 1e12) : m == 2 ? r.sign() * r.range(0, 2) : r.sign() * r.logu(1e-300, 1e300); if (n && r.coin()) v[r.range(0, n - 1)] = r.sign() * 1.5e301; return v; }
static double amax(const std::vector<double> &v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
template <class Fl> void norm(const char *nm, double got, const std::vector<double> &v, Fl) { double w = 0; for (double x : v) w = std::max(w, std::fabs(double(Fl(x)))); HCHECK(got == w || (std::isinf(w) && got == w), "norm", nm, ": norm ", got, " of ", v.size(), " elements, the largest magnitude is ", w); H::count("norms"); }
template <class C> std::vector<const void *> radr(C &c) { std::vector<const void *> r; for (auto &x : c) r.push_back(&x); return r; }
template <class C> void range_case(const char *nm, int lo, int hi) {
    H::group(nm, 40, [&](Rng &r) { int n = r.range(lo, hi); bool cst = r.coin(); H::describe(nm, " n=", n, " const=", cst); H::nontrivial(n > 1); std::vector<C> own(15, C(n)); std::vector<C *> s; for (auto &x : own) s.push_back(&x);
        typedef typename ode::algebra_dispatcher<C>::algebra_type A; each(nm, A(), s, n, cst, [](C &x) { return radr(x); });
        auto v = values(r, n); auto it = own[0].begin(); for (double x : v) *it++ = typename C::value_type(x); norm(nm, double(A().norm_inf(own[0])), v, typename C::value_type()); });
}
template <class T> struct Fix { template <size_t N> static void go(const char *nm) {
    H::group(H::cat(nm, "-", N), 15, [&](Rng &r) { bool cst = r.coin(); H::describe(nm, " n=", N, " const=", cst); H::nontrivial(N > 1); typedef typename T::template A<N> C; std::vector<C> own(15); std::vector<C *> s; for (auto &x : own) s.push_back(&x);
        typedef typename ode::algebra_dispatcher<C>::algebra_type A; each(nm, A(), s, int(N), cst, [](C &x) { return radr(x); }); auto v = values(r, int(N)); for (size_t i = 0; i < N; ++i) own[0][i] = v[i]; norm(nm, double(A().norm_inf(own[0])), v, typename C::value_type()); }); } };
#if PART == 0
struct SA { template <size_t N> using A = std::array<double, N>; }; struct BA { template <size_t N> using A = boost::array<float, N>; };
template <class... S> struct Mixed {}; 
static void mixed() {
    H::group("mixed-ranges", 120, [&](Rng &r) { int n = r.range(0, 40); H::describe("mixed n=", n); H::nontrivial(n > 1); std::vector<double> a(n), keep(n); std::deque<double> b(n); std::list<float> c(n); std::vector<double> host(n + 7); auto d = boost::make_iterator_range(host.begin() + 3, host.begin() + 3 + n); const std::vector<long double> e(n); Calls q; ode::range_algebra g;
        g.for_each3(a, b, c, Rec{&q}); judge("mixed", 3, n, q, {radr(a), radr(b), radr(c)}, 0); q.clear(); g.for_each4(d, a, e, b, Rec{&q}); judge("mixed", 4, n, q, {radr(d), radr(a), radr(e), radr(b)}, 0); q.clear(); g.for_each2(b, e, Rec{&q}); judge("mixed", 2, n, q, {radr(b), radr(e)}, 0); q.clear(); g.for_each1(d, Rec{&q}); judge("mixed", 1, n, q, {radr(d)}, 0); q.clear(); g.for_each6(c, e, a, d, b, keep, Rec{&q}); judge("mixed", 6, n, q, {radr(c), radr(e), radr(a), radr(d), radr(b), radr(keep)}, 0); });
    H::group("complex-norm", 60, [&](Rng &r) { int n = r.range(1, 20); H::describe("n=", n); H::nontrivial(); std::vector<std::complex<double>> z(n); double w = 0; for (auto &x : z) { x = std::complex<double>(r.uni(-3, 3), r.uni(-3, 3)); w = std::max(w, std::hypot(x.real(), x.imag())); } double g = ode::range_algebra().norm_inf(z); HCHECK(std::fabs(g - w) <= 1e-14 * w, "norm", g, " largest magnitude ", w); std::complex<double> s = z[0]; double gs = ode::vector_space_algebra().norm_inf(s); HCHECK(std::fabs(gs - std::hypot(s.real(), s.imag())) <= 1e-14 * 5, "norm", "complex scalar ", gs); std::complex<float> sf(3, -4); HCHECK(ode::vector_space_algebra().norm_inf(sf) == 5.f, "norm", "complex float scalar"); });
    H::group("scalars", 60, [&](Rng &r) { double x = r.sign() * r.logu(1e-300, 1e300); float f = r.uni(-5, 5); H::describe("x=", x, " f=", f); H::nontrivial(); HCHECK(ode::vector_space_algebra().norm_inf(x) == std::fabs(x), "norm", x); HCHECK(ode::vector_space_algebra().norm_inf(f) == std::fabs(f), "norm", f);
        std::vector<double> own(15); std::vector<double *> s; for (auto &v : own) s.push_back(&v); each("double", ode::algebra_dispatcher<double>::algebra_type(), s, 1, r.coin(), [](double &v) { return std::vector<const void *>{&v}; }); });
    static_assert(std::is_same<ode::algebra_dispatcher<std::vector<double>>::algebra_type, ode::range_algebra>::value && std::is_same<ode::algebra_dispatcher<std::array<double, 3>>::algebra_type, ode::array_algebra>::value && std::is_same<ode::algebra_dispatcher<boost::array<double, 3>>::algebra_type, ode::array_algebra>::value && std::is_same<ode::algebra_dispatcher<double>::algebra_type, ode::vector_space_algebra>::value && std::is_same<ode::algebra_dispatcher<long double>::algebra_type, ode::vector_space_algebra>::value && std::is_same<ode::algebra_dispatcher<std::complex<float>>::algebra_type, ode::vector_space_algebra>::value, "dispatch");
}
#endif
#if PART == 1 || PART == 3
namespace fus = boost::fusion; typedef fus::vector<double, double, double, double, double> F5; typedef fus::vector<double> F1; typedef fus::vector<double, double, double> F3;
struct AdrF { std::vector<const void *> *v; template <class T> void operator()(T &x) const { v->push_back(&x); } };
struct SetF { const std::vector<double> *v; mutable int i; SetF(const std::vector<double> &w) : v(&w), i(0) {} template <class T> void operator()(T &x) const { x = (*v)[i++]; } };
template <class F> void fusion_case(const char *nm, int n) { H::group(nm, 30, [&](Rng &r) { H::describe(nm, " const=1", " #", r.u64() % 1000); H::nontrivial(); std::vector<F> own(15); std::vector<F *> s; for (auto &x : own) s.push_back(&x); typedef typename ode::algebra_dispatcher<F>::algebra_type A; static_assert(std::is_same<A, ode::fusion_algebra>::value, "dispatch");
    each(nm, A(), s, n, true, [](F &x) { std::vector<const void *> v; fus::for_each(x, AdrF{&v}); return v; }); auto v = values(r, n); { int i = 0; AdrF dummy{0}; (void)dummy; (void)i; std::vector<const void *> q; fus::for_each(own[0], AdrF{&q}); for (int j = 0; j < n; ++j) *const_cast<double *>(static_cast<const double *>(q[j])) = v[j]; } norm(nm, A().norm_inf(own[0]), v, 1.0); }); }
#if PART == 3
static void part1() { fusion_case<F1>("fusion1", 1); fusion_case<F3>("fusion3", 3); fusion_case<F5>("fusion5", 5); }
#else
static void part1() {
    namespace ub = boost::numeric::ublas;
    H::group("ublas-vector", 60, [&](Rng &r) { int n = r.range(1, 30); H::describe("ublas n=", n); H::nontrivial(n > 1); ub::vector<double> x(n); auto v = values(r, n); for (int i = 0; i < n; ++i) x[i] = v[i]; typedef ode::algebra_dispatcher<ub::vector<double>>::algebra_type A; norm("ublas-vector", A().norm_inf(x), v, 1.0); ub::vector<double> own[15]; std::vector<ub::vector<double> *> s; for (auto &y : own) s.push_back(&y); each("ublas-vector", A(), s, 1, r.coin(), [](ub::vector<double> &y) { return std::vector<const void *>{&y}; }); ub::vector<float> f(n); for (int i = 0; i < n; ++i) f[i] = float(i - n / 2.0f); HCHECK(ode::vector_space_algebra().norm_inf(f) == float(std::max(n / 2.0f, n - 1 - n / 2.0f)), "norm", "ublas float"); });
    H::group("ublas-matrix", 60, [&](Rng &r) { int n = r.range(1, 7), m = r.range(1, 7); H::describe("ublas ", n, "x", m); H::nontrivial(n * m > 1); ub::matrix<double> x(n, m); ub::matrix<double, ub::column_major> y(n, m); auto v = values(r, n * m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) x(i, j) = y(i, j) = v[i * m + j]; norm("ublas-matrix", ode::algebra_dispatcher<ub::matrix<double>>::algebra_type().norm_inf(x), v, 1.0); norm("ublas-matrix-column-major", ode::vector_space_algebra().norm_inf(y), v, 1.0); });
    H::group("eigen", 60, [&](Rng &r) { int n = r.range(1, 12), m = r.range(1, 5); H::describe("eigen ", n, "x", m); H::nontrivial(n * m > 1); Eigen::MatrixXd x(n, m); auto v = values(r, n * m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) x(i, j) = v[i * m + j]; typedef ode::algebra_dispatcher<Eigen::MatrixXd>::algebra_type A; static_assert(std::is_same<A, ode::vector_space_algebra>::value, "dispatch"); norm("eigen-matrix", A().norm_inf(x), v, 1.0); Eigen::VectorXd y(n * m); for (int i = 0; i < n * m; ++i) y[i] = v[i]; norm("eigen-vector", A().norm_inf(y), v, 1.0); Eigen::Vector3f f(1, -7, 2); HCHECK(A().norm_inf(f) == 7.f, "norm", "eigen float"); });
    H::group("gsl", 60, [&](Rng &r) { int n = r.range(1, 20); bool cst = false; H::describe("gsl n=", n); H::nontrivial(n > 1); std::vector<gsl_vector *> s; std::vector<gsl_vector> str; std::vector<std::vector<double>> mem(15); for (int i = 0; i < 15; ++i) { int st = r.range(1, 3); mem[i].resize(n * st); gsl_vector g; g.size = n; g.stride = st; g.data = mem[i].data(); g.block = 0; g.owner = 0; str.push_back(g); } std::vector<gsl_vector *> pp; for (auto &g : str) pp.push_back(&g); std::vector<gsl_vector **> sp; for (auto &p : pp) sp.push_back(&p); typedef gsl_vector *St; each<ode::algebra_dispatcher<gsl_vector *>::algebra_type, St>("gsl", ode::algebra_dispatcher<gsl_vector *>::algebra_type(), sp, n, cst, [](gsl_vector *&g) { std::vector<const void *> v; for (size_t i = 0; i < g->size; ++i) v.push_back(g->data + i * g->stride); return v; }); });
    H::group("multi-array", 60, [&](Rng &r) { int a = r.range(1, 5), b = r.range(1, 4), c = r.range(1, 4), n = a * b * c; bool cst = r.coin(); H::describe("multi_array ", a, "x", b, "x", c, " const=", cst); H::nontrivial(n > 1); typedef boost::multi_array<double, 3> M; typedef ode::algebra_dispatcher<M>::algebra_type A; std::vector<M *> s; std::vector<std::unique_ptr<M>> own; for (int i = 0; i < 15; ++i) { own.emplace_back(new M(boost::extents[a][b][c])); if (r.coin()) { boost::array<int, 3> o = {{r.range(-3, 3), r.range(-3, 3), r.range(-3, 3)}}; own.back()->reindex(o); } s.push_back(own.back().get()); }
        each("multi-array", A(), s, n, cst, [](M &x) { std::vector<const void *> v; for (size_t i = 0; i < x.shape()[0]; ++i) for (size_t j = 0; j < x.shape()[1]; ++j) for (size_t k = 0; k < x.shape()[2]; ++k) v.push_back(&x[i + x.index_bases()[0]][j + x.index_bases()[1]][k + x.index_bases()[2]]); return v; });
        auto v = values(r, n); std::copy(v.begin(), v.end(), own[0]->data()); norm("multi-array", A().norm_inf(*own[0]), v, 1.0); });
}
#endif
#endif
#if PART == 2
template <int K> struct TupRec { Calls *c; template <class T> void operator()(T t) const { std::vector<const void *> v; put(v, t, std::integral_constant<int, 0>()); c->push_back(v); } template <class T, int I> void put(std::vector<const void *> &v, T &t, std::integral_constant<int, I>) const { v.push_back(&thrust::get<I>(t)); put(v, t, std::integral_constant<int, I + 1>()); } template <class T> void put(std::vector<const void *> &, T &, std::integral_constant<int, K>) const {} };
struct TupRec1 { Calls *c; template <class T> void operator()(T &t) const { c->push_back({&t}); } };
#define TONE(z, k, d) { Calls c; a.for_each##k(BOOST_PP_ENUM(k, EL, ~), TupRec<k>{&c}); judge(nm, k, n, c, ad, 0); }
template <class V> void thrust_case(const char *nm) { typedef typename ode::algebra_dispatcher<V>::algebra_type A;
    H::group(nm, 80, [&](Rng &r) { int n = r.range(0, 40); H::describe(nm, " n=", n); H::nontrivial(n > 1); std::vector<V> own(15, V(n)); std::vector<V *> s; for (auto &x : own) s.push_back(&x); A a; std::vector<std::vector<const void *>> ad; for (auto *x : s) { std::vector<const void *> v; for (int i = 0; i < n; ++i) v.push_back(thrust::raw_pointer_cast(&(*x)[0]) + i); ad.push_back(v); }
        { Calls c; a.for_each1(*s[0], TupRec1{&c}); judge(nm, 1, n, c, ad, 0); } BOOST_PP_REPEAT_FROM_TO(2, 9, TONE, ~)
        auto v = values(r, n); for (int i = 0; i < n; ++i) own[0][i] = v[i]; norm(nm, a.norm_inf(own[0]), v, 1.0); }); }
#endif
// operations: result of each element operation against the sum in long double
#define AL(z, i, d) al[i]
#define XS(z, i, d) , x[i]
#define SUM(z, k, d) { double y = r.uni(-9, 9); typename OP::template scale_sum##k<> op(BOOST_PP_ENUM(k, AL, ~)); A2::call(op, y BOOST_PP_REPEAT(k, XS, ~)); long double w = 0, m = 0; for (int i = 0; i < k; ++i) { w += (long double)al[i] * x[i]; m += std::fabs(al[i] * x[i]); } HCHECK(std::fabs(double(y - w)) <= 4e-16 * (k + 1) * double(m), "scale-sum", nm, " scale_sum", k, ": ", y, " expected ", double(w)); H::count("operations"); }
#include <boost/preprocessor/repetition/repeat.hpp>
struct Plain { template <class O, class... A> static void call(O &o, A &...a) { o(a...); } };
#if PART == 2
struct Tup { template <class O, class... A> static void call(O &o, A &...a) { o(thrust::tuple<A &...>(a...)); } };
#endif
template <class OP, class A2> void common_ops(const char *nm, Rng &r, const std::vector<double> &al, std::vector<double> &x) {
    BOOST_PP_REPEAT_FROM_TO(2, 8, SUM, ~)
    { double a = x[0], b = x[1], c = x[2]; typename OP::template scale_sum_swap2<> op(al[0], al[1]); A2::call(op, a, b, c); long double w = (long double)al[0] * x[1] + (long double)al[1] * x[2]; HCHECK(std::fabs(double(a - w)) <= 1e-15 * (std::fabs(al[0] * x[1]) + std::fabs(al[1] * x[2])) && b == x[0] && c == x[2], "scale-sum-swap", nm, " result ", a, ",", b, " expected ", double(w), ",", x[0]); }
    { double ea = r.logu(1e-9, 1), er = r.logu(1e-9, 1), ax = r.uni(0.1, 2), ad = r.uni(0.1, 2), e = x[0], xo = x[1], dx = x[2]; typename OP::template rel_error<> op(ea, er, ax, ad); A2::call(op, e, xo, dx); double w = std::fabs(x[0]) / (ea + er * (ax * std::fabs(x[1]) + ad * std::fabs(x[2]))); HCHECK(std::fabs(e - w) <= 1e-13 * w && xo == x[1] && dx == x[2], "rel-error", nm, ": ", e, " expected ", w, " (err ", x[0], " x ", x[1], " dxdt ", x[2], " eps ", ea, ",", er, " a_x ", ax, " a_dxdt ", ad, ")"); }
}
static void inputs(Rng &r, std::vector<double> &al, std::vector<double> &x) { al.clear(); x.clear(); for (int i = 0; i < 15; ++i) { al.push_back(r.sign() * r.logu(0.01, 10)); x.push_back(r.sign() * r.logu(0.01, 10)); } }
int main(int c, char **v) {
    H::init(c, v, "alg"); 
#if PART == 0
    range_case<std::vector<double>>("vector", 0, 60); range_case<std::vector<float>>("vector-float", 0, 20); range_case<std::vector<long double>>("vector-long-double", 0, 20); range_case<std::deque<double>>("deque", 0, 60); range_case<std::list<double>>("list", 0, 30); 
    Fix<SA>::go<1>("std-array"); Fix<SA>::go<2>("std-array"); Fix<SA>::go<3>("std-array"); Fix<SA>::go<7>("std-array"); Fix<BA>::go<1>("boost-array"); Fix<BA>::go<4>("boost-array"); Fix<BA>::go<16>("boost-array"); mixed();
    H::group("default-operations", 400, [&](Rng &r) { std::vector<double> al, x; inputs(r, al, x); H::describe("default_operations ", al[0], ",", x[0]); H::nontrivial(); typedef ode::default_operations OP; typedef Plain A2; const char *nm = "default_operations"; common_ops<OP, A2>(nm, r, al, x); { double y = x[0]; ode::default_operations::scale<> s(al[0]); s(y); HCHECK(y == x[0] * al[0], "scale", y); } BOOST_PP_REPEAT_FROM_TO(1, 15, SUM, ~)
        { double ea = r.logu(1e-9, 1), er = r.logu(1e-9, 1), e = x[0]; OP::default_rel_error<> op(ea, er); op(e, x[1], x[2]); double w = std::fabs(x[0]) / (ea + er * std::max(std::fabs(x[1]), std::fabs(x[2]))); HCHECK(std::fabs(e - w) <= 1e-13 * w, "default-rel-error", e, " expected ", w); OP::maximum<double> mx; HCHECK(mx(x[0], x[1]) == std::max(std::fabs(x[0]), std::fabs(x[1])), "maximum", mx(x[0], x[1])); } });
#elif PART == 1 || PART == 3
    part1();
#elif PART == 2
    thrust_case<thrust::host_vector<double>>("thrust-host"); thrust_case<thrust::device_vector<double>>("thrust-device");
    H::group("thrust-operations", 400, [&](Rng &r) { std::vector<double> al, x; inputs(r, al, x); H::describe("thrust_operations ", al[0], ",", x[0]); H::nontrivial(); common_ops<ode::operations_dispatcher<thrust::host_vector<double>>::operations_type, Tup>("thrust_operations", r, al, x); });
#endif
    return H::finish();
}
