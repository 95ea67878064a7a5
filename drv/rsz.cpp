// C18: resizing of state containers seen directly: resize, same_size, adjust_size_by_resizeability, the resizer classes, state wrappers.
// PART 0: std, ublas, multi_array, fusion, user defined; 1: Eigen; 2: thrust; 3: GSL; 4: OpenMP chunks
#include "h.hpp"
#include "sys.hpp"
#include <array>
#include <deque>
#include <list>
#include <boost/numeric/odeint.hpp>
#include <boost/fusion/include/vector.hpp>
#include <boost/fusion/include/at_c.hpp>
#include <boost/fusion/include/is_sequence.hpp>
#include <boost/fusion/include/comparison.hpp>
#include <boost/multi_array.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/ublas/lu.hpp>
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/util/multi_array_adaption.hpp>
#if PART == 1
#include <Eigen/Dense>
#include <boost/numeric/odeint/algebra/algebra_dispatcher.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/external/eigen/eigen.hpp>
#elif PART == 2
#include <thrust/device_vector.h>
#include <thrust/host_vector.h>
#include <boost/numeric/odeint/external/thrust/thrust.hpp>
#elif PART == 3
#include <gsl/gsl_vector.h>
#include <boost/numeric/odeint/external/gsl/gsl_wrapper.hpp>
#elif PART == 4
#include <omp.h>
#include <boost/numeric/odeint/external/openmp/openmp.hpp>
#endif
namespace ode = boost::numeric::odeint; namespace ub = boost::numeric::ublas; namespace fu = boost::fusion;
using H::Rng;
typedef std::vector<double> vec;
// a user type with its own resize
struct Mine { std::vector<double> a; int pad = 7; };
struct Fix { double v[3]; };
namespace boost { namespace numeric { namespace odeint {
template <> struct is_resizeable<Mine> : boost::true_type {};
template <> struct same_size_impl<Mine, Mine> { static bool same_size(const Mine &x, const Mine &y) { return x.a.size() == y.a.size(); } };
template <> struct resize_impl<Mine, Mine> { static void resize(Mine &x, const Mine &y) { x.a.resize(y.a.size()); } };
template <class T> struct is_resizeable<std::deque<T>> : boost::true_type {};
template <class T> struct is_resizeable<std::list<T>> : boost::true_type {};
} } }
// adapter: make(r) a random template state, shape() its observable size, fill() writes into every element (memory is watched), sum() reads all
template <class S> struct Ad;
typedef std::vector<long> Shape;
template <class S> struct RangeAd { static S make(Rng &r) { S s; s.resize(r.coin(0.15) ? 0 : r.range(1, 12)); for (auto &v : s) v = r.uni(-1, 1); return s; } static Shape shape(const S &s) { return Shape{long(s.size())}; } static void fill(S &s, double v) { for (auto &e : s) e = v++; } static double sum(const S &s) { double q = 0; for (const auto &e : s) q += e; return q; } };
template <class A> struct Ad<std::vector<double, A>> : RangeAd<std::vector<double, A>> {};
template <> struct Ad<std::vector<float>> : RangeAd<std::vector<float>> {};
template <> struct Ad<std::deque<double>> : RangeAd<std::deque<double>> {};
template <> struct Ad<std::list<double>> : RangeAd<std::list<double>> {};
template <> struct Ad<ub::vector<double>> : RangeAd<ub::vector<double>> {};
template <> struct Ad<Mine> { static Mine make(Rng &r) { Mine m; m.a = RangeAd<vec>::make(r); return m; } static Shape shape(const Mine &m) { return Shape{long(m.a.size())}; } static void fill(Mine &m, double v) { RangeAd<vec>::fill(m.a, v); } static double sum(const Mine &m) { return RangeAd<vec>::sum(m.a); } };
template <class L> struct Ad<ub::matrix<double, L>> { typedef ub::matrix<double, L> S; static S make(Rng &r) { S s(r.range(1, 6), r.range(1, 6)); fill(s, r.uni(-1, 1)); return s; } static Shape shape(const S &s) { return Shape{long(s.size1()), long(s.size2())}; } static void fill(S &s, double v) { for (size_t i = 0; i < s.size1(); ++i) for (size_t j = 0; j < s.size2(); ++j) s(i, j) = v++; } static double sum(const S &s) { double q = 0; for (size_t i = 0; i < s.size1(); ++i) for (size_t j = 0; j < s.size2(); ++j) q += s(i, j); return q; } };
template <class V, size_t D> struct Ad<boost::multi_array<V, D>> { typedef boost::multi_array<V, D> S; static S make(Rng &r) { boost::array<int, D> e, o; for (size_t i = 0; i < D; ++i) { e[i] = r.range(1, 4); o[i] = r.coin() ? 0 : r.range(-3, 3); } S s(e); s.reindex(o); fill(s, r.uni(-1, 1)); return s; }
    static Shape shape(const S &s) { Shape q; for (size_t i = 0; i < D; ++i) { q.push_back(s.shape()[i]); q.push_back(s.index_bases()[i]); } return q; } static void fill(S &s, double v) { for (size_t i = 0; i < s.num_elements(); ++i) s.data()[i] = v++; } static double sum(const S &s) { double q = 0; for (size_t i = 0; i < s.num_elements(); ++i) q += s.data()[i]; return q; } };
template <class A, class B> struct Ad<fu::vector<A, B, double>> { typedef fu::vector<A, B, double> S; static S make(Rng &r) { A a = Ad<A>::make(r); B b = Ad<B>::make(r); return S(a, b, r.uni(-1, 1)); } static Shape shape(const S &s) { Shape a = Ad<A>::shape(fu::at_c<0>(s)), b = Ad<B>::shape(fu::at_c<1>(s)); a.insert(a.end(), b.begin(), b.end()); return a; } static void fill(S &s, double v) { Ad<A>::fill(fu::at_c<0>(s), v); Ad<B>::fill(fu::at_c<1>(s), v + 0.5); fu::at_c<2>(s) = v; } static double sum(const S &s) { return Ad<A>::sum(fu::at_c<0>(s)) + Ad<B>::sum(fu::at_c<1>(s)) + fu::at_c<2>(s); } };
#if PART == 1
template <int R, int C> struct Ad<Eigen::Matrix<double, R, C>> { typedef Eigen::Matrix<double, R, C> S; static S make(Rng &r) { S s(R < 0 ? r.range(1, 6) : R, C < 0 ? r.range(1, 6) : C); fill(s, r.uni(-1, 1)); return s; } static Shape shape(const S &s) { return Shape{long(s.rows()), long(s.cols())}; } static void fill(S &s, double v) { for (int i = 0; i < s.rows(); ++i) for (int j = 0; j < s.cols(); ++j) s(i, j) = v++; } static double sum(const S &s) { double q = 0; for (int i = 0; i < s.rows(); ++i) for (int j = 0; j < s.cols(); ++j) q += s(i, j); return q; } };
template <int R, int C> struct Ad<Eigen::Array<double, R, C>> { typedef Eigen::Array<double, R, C> S; static S make(Rng &r) { S s(R < 0 ? r.range(1, 6) : R, C < 0 ? r.range(1, 6) : C); fill(s, r.uni(-1, 1)); return s; } static Shape shape(const S &s) { return Shape{long(s.rows()), long(s.cols())}; } static void fill(S &s, double v) { for (int i = 0; i < s.rows(); ++i) for (int j = 0; j < s.cols(); ++j) s(i, j) = v++; } static double sum(const S &s) { double q = 0; for (int i = 0; i < s.rows(); ++i) for (int j = 0; j < s.cols(); ++j) q += s(i, j); return q; } };
#elif PART == 2
template <> struct Ad<thrust::host_vector<double>> : RangeAd<thrust::host_vector<double>> {};
template <> struct Ad<thrust::device_vector<double>> { typedef thrust::device_vector<double> S; static S make(Rng &r) { S s(r.range(1, 12)); fill(s, r.uni(-1, 1)); return s; } static Shape shape(const S &s) { return Shape{long(s.size())}; } static void fill(S &s, double v) { for (size_t i = 0; i < s.size(); ++i) s[i] = v++; } static double sum(const S &s) { double q = 0; for (size_t i = 0; i < s.size(); ++i) q += s[i]; return q; } };
#elif PART == 4
template <> struct Ad<ode::openmp_state<double>> { typedef ode::openmp_state<double> S; static S make(Rng &r) { S s; s.resize(r.range(1, 6)); for (auto &c : s) { c.resize(r.coin(0.2) ? 0 : r.range(1, 5)); for (auto &v : c) v = r.uni(-1, 1); } return s; } static Shape shape(const S &s) { Shape q; for (auto &c : s) q.push_back(c.size()); return q; } static void fill(S &s, double v) { for (auto &c : s) for (auto &e : c) e = v++; } static double sum(const S &s) { double q = 0; for (auto &c : s) for (auto &e : c) q += e; return q; } };
#endif
static std::string str(const Shape &s) { std::ostringstream o; for (long v : s) o << v << " "; return o.str(); }
template <class S> struct ASSIGN : std::true_type {};
template <class A, class V, size_t D> struct ASSIGN<fu::vector<A, boost::multi_array<V, D>, double>> : std::false_type {}; // multi_array itself cannot be assigned to another shape
template <class S> void scenario(Rng &r) {
    typedef Ad<S> A; typedef ode::state_wrapper<S> W; typename ode::is_resizeable<S>::type tag;
    static_assert(ode::is_resizeable<S>::type::value && ode::is_resizeable<S>::value, "resizable");
    W w; S plain = A::make(r); bool have = false; Shape cur = A::shape(w.m_v); int calls = 0; ode::always_resizer al; ode::initially_resizer in; ode::never_resizer ne; bool in_used = false;
    auto f = [&](const S &x) { calls++; return ode::adjust_size_by_resizeability(w, x, tag); };
    std::vector<W> old; std::vector<std::pair<Shape, double>> oldv;
    for (int i = 0, n = r.range(3, 14); i < n; ++i) {
        S t = r.coin(0.25) && have ? w.m_v : A::make(r); Shape want = A::shape(t); double before = A::sum(t); int how = r.range(0, ASSIGN<S>::value ? 5 : 4); bool eq = want == cur; H::describe("step ", i, " how ", how, " from ", str(cur), " to ", str(want)); H::nontrivial();
        HREQUIRE(ode::same_size(w.m_v, t) == eq, "same-size", "same_size is ", !eq); HREQUIRE(ode::same_size(t, t), "same-size", "not of its own size");
        if (how == 0) { ode::resize(w.m_v, t); cur = want; }
        else if (how == 1) { bool ch = ode::adjust_size_by_resizeability(w, t, tag); HREQUIRE(ch == !eq, "adjust-result", "adjust_size reports ", ch); cur = want; }
        else if (how == 2) { int c0 = calls; bool ch = al.adjust_size(t, f); HREQUIRE(calls == c0 + 1 && ch == !eq, "always-resizer", "calls ", calls - c0, " result ", ch); cur = want; }
        else if (how == 3) { int c0 = calls; bool ch = in.adjust_size(t, f); HREQUIRE(calls == c0 + (in_used ? 0 : 1) && ch == (!in_used && !eq), "initially-resizer", "calls ", calls - c0, " result ", ch, " used before ", in_used); if (!in_used) cur = want; in_used = true; }
        else if (how == 4) { int c0 = calls; bool ch = ne.adjust_size(t, f); HREQUIRE(calls == c0 && !ch, "never-resizer", "calls ", calls - c0, " result ", ch); }
        else if (!old.empty() && ASSIGN<S>::value) { size_t k = r.range(0, int(old.size()) - 1); w = old[k]; cur = oldv[k].first; HREQUIRE(A::sum(w.m_v) == oldv[k].second || std::isnan(oldv[k].second), "wrapper-assign", "content lost"); }
        have = true; HREQUIRE(A::shape(w.m_v) == cur, "size", "has size ", str(A::shape(w.m_v)), " expected ", str(cur)); HREQUIRE(A::shape(t) == want && A::sum(t) == before, "template-changed", "the template state was modified");
        A::fill(w.m_v, r.uni(-1, 1)); H::count("elements-written", 1); double s = A::sum(w.m_v); HREQUIRE(std::isfinite(s), "content", "sum ", s);
        { S u = t; ode::resize(u, w.m_v); HREQUIRE(ode::same_size(u, w.m_v) && A::shape(u) == cur, "size", "resize to ", str(A::shape(u))); ode::copy(w.m_v, u); HREQUIRE(A::sum(u) == s && A::sum(w.m_v) == s, "copy", "copy lost content: ", A::sum(u), " ", s); A::fill(u, 9); HREQUIRE(A::sum(w.m_v) == s, "aliasing", "resized container shares memory"); }
        if (r.coin(0.4)) { old.push_back(w); oldv.push_back({cur, s}); } if (r.coin(0.2)) { W c(w); HREQUIRE(A::sum(c.m_v) == s, "wrapper-copy", "content lost"); A::fill(c.m_v, 5); HREQUIRE(A::sum(w.m_v) == s, "wrapper-copy", "copies share memory"); }
        if (ASSIGN<S>::value && r.coin(0.1)) { W &self = w; w = self; HREQUIRE(A::sum(w.m_v) == s, "wrapper-assign", "self assignment"); }
    }
    for (size_t k = 0; k < old.size(); ++k) HREQUIRE(A::sum(old[k].m_v) == oldv[k].second && A::shape(old[k].m_v) == oldv[k].first, "wrapper-copy", "an earlier copy was modified");
}
template <class S> void grp(const char *n, int cases = 150) { H::group(n, cases, [](Rng &r) { scenario<S>(r); }); }
// states which cannot be resized: left alone, every resizer reports no change
template <class S> void fixed(const char *n, S a, S b) { H::group(n, 20, [&](Rng &r) { H::describe(n); H::nontrivial(); static_assert(!ode::is_resizeable<S>::type::value && !ode::is_resizeable<S>::value, "fixed"); ode::state_wrapper<S> w; w.m_v = a; typename ode::is_resizeable<S>::type tag; HREQUIRE(!ode::adjust_size_by_resizeability(w, b, tag), "adjust-result", "a fixed size state was resized"); HREQUIRE(std::memcmp(&w.m_v, &a, sizeof(S)) == 0, "content", "a fixed size state was modified"); ode::always_resizer al; int calls = 0; HREQUIRE(!al.adjust_size(b, [&](const S &x) { calls++; return ode::adjust_size_by_resizeability(w, x, tag); }) && calls == 1, "always-resizer", "reports a change"); }); }
#if PART == 0
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
// steppers with a history used with a state of another size: they start afresh
template <class S> void hist_switch(const char *nm, bool second) {
    H::group(std::string(nm) + "-size-switch", 120, [&](Rng &r) {
        int n = r.range(1, 6); std::string hist; H::describe(nm, " first size ", n); H::nontrivial(); S s; int K = r.range(3, 10);
        for (int k = 0; k < K; ++k) {
            if (k) { int m; do m = r.range(1, 7); while (m == n); n = m; } int L = r.range(1, 9); hist += H::cat(n, "x", L, " "); T::Rough p = T::Rough::make(r, n); auto f = [&](const vec &x, vec &dx, double t) { p.rhs<double>(x, dx, t); }; auto f2 = [&](const vec &q, const vec &, vec &a, double t) { p.rhs<double>(q, a, t); }; vec x(n), v(n); for (auto &e : x) e = r.uni(-2, 2); for (auto &e : v) e = r.uni(-1, 1); double t = r.uni(-3, 3), dt = r.sign() * r.logu(1e-3, 0.1); vec y = x, w = v; S g;
            for (int i = 0; i < L; ++i) { hist_step(s, f, f2, x, v, t, dt, second); hist_step(g, f, f2, y, w, t, dt, second); t += dt; HREQUIRE(x.size() == size_t(n) && T::diff(x, y, n) <= 1e-12 * (1 + T::maxabs(y)) && T::diff(v, w, n) <= 1e-12 * (1 + T::maxabs(w)), "step-after-switch", "sizes ", hist, ": step ", i, " differs from that of a fresh stepper by ", T::diff(x, y, n)); if (!(T::maxabs(y) < 1e6)) return; } H::count("switches"); } });
}
template <class S, class F, class F2> auto hist_step(S &s, F f, F2, vec &x, vec &, double t, double dt, bool) -> typename std::enable_if<!std::is_same<typename S::state_type, std::pair<vec, vec>>::value && sizeof(decltype(s.do_step(f, x, t, dt), 0))>::type { s.do_step(f, x, t, dt); }
template <class... A, class F, class F2> void hist_step(ode::velocity_verlet<A...> &s, F, F2 f2, vec &x, vec &v, double t, double dt, bool) { s.do_step(f2, std::make_pair(std::ref(x), std::ref(v)), t, dt); }
// first-same-as-last steppers used with a state of another size: the remembered derivative cannot be used, the step is that of a fresh stepper
static void fsal_switch() {
    typedef ode::runge_kutta_dopri5<vec, double, vec, double, ode::range_algebra, ode::default_operations, ode::always_resizer> D; typedef ode::controlled_runge_kutta<D> C;
    H::group("fsal-size-switch", 200, [](Rng &r) {
        int n = r.range(1, 6); bool ctl = r.coin(); std::string hist; H::describe("first size ", n, " controlled=", ctl); H::nontrivial(); D d; C c{typename C::error_checker_type(1e-3, 1e-3)}; int K = r.range(3, 15);
        for (int k = 0; k < K; ++k) {
            if (k) { int m; do m = r.range(1, 7); while (m == n); n = m; } T::Rough p = T::Rough::make(r, n); auto f = [&](const vec &x, vec &dx, double t) { p.rhs<double>(x, dx, t); }; vec x(n), o(n, NAN), q(n, NAN), e(n), eq(n); for (auto &v : x) v = r.uni(-2, 2); double t = r.uni(-3, 3), dt = r.sign() * r.logu(1e-3, 0.3); int w = r.range(0, 3); hist += H::cat(n, "/", w, " ");
            if (!ctl) { D g; g.do_step(f, x, t, q, dt, eq); if (w == 0) { o = x; d.do_step(f, o, t, dt); } else if (w == 1) d.do_step(f, x, t, o, dt); else if (w == 2) { o = x; d.do_step(f, o, t, dt, e); } else d.do_step(f, x, t, o, dt, e); if (w >= 2) HCHECK(e.size() == eq.size() && T::diff(e, eq, n) <= 1e-12 * (1 + T::maxabs(q)), "error-after-switch", hist); }
            else { C g{typename C::error_checker_type(1e-3, 1e-3)}; double t1 = t, d1 = dt, t2 = t, d2 = dt; q = x; bool a = g.try_step(f, q, t1, d1) == ode::success, b; if (w & 1) { b = c.try_step(f, x, t2, o, d2) == ode::success; if (!b) o = x; } else { o = x; b = c.try_step(f, o, t2, d2) == ode::success; } HCHECK(a == b && t1 == t2 && std::fabs(d1 - d2) <= 1e-7 * std::fabs(d1), "attempt-after-switch", hist); }
            HCHECK(T::diff(o, q, n) <= 1e-12 * (1 + T::maxabs(q)), "step-after-switch", "sizes/forms ", hist, ": differs from a fresh stepper by ", T::diff(o, q, n)); H::count("switches"); } });
}
#endif
int main(int c, char **v) { H::init(c, v, "rsz");
#if PART == 0
    fsal_switch(); { typedef ode::range_algebra RA; typedef ode::default_operations DO; typedef ode::always_resizer RZ; hist_switch<ode::velocity_verlet<vec, vec, double, vec, double, double, RA, DO, RZ>>("velocity-verlet", true); hist_switch<ode::adams_bashforth<4, vec, double, vec, double, RA, DO, RZ>>("adams-bashforth4", false); hist_switch<ode::adams_bashforth_moulton<3, vec, double, vec, double, RA, DO, RZ>>("adams-bashforth-moulton3", false); hist_switch<ode::adaptive_adams_bashforth_moulton<3, vec, double, vec, double, RA, DO, RZ>>("adaptive-abm3", false); }
    grp<vec>("vector"); grp<std::vector<float>>("vector-float"); grp<std::deque<double>>("deque"); grp<std::list<double>>("list"); grp<ub::vector<double>>("ublas-vector"); grp<ub::matrix<double>>("ublas-matrix"); grp<ub::matrix<double, ub::column_major>>("ublas-matrix-col"); grp<Mine>("user-type");
    grp<boost::multi_array<double, 1>>("multi-array1"); grp<boost::multi_array<double, 2>>("multi-array2"); grp<boost::multi_array<double, 3>>("multi-array3"); grp<boost::multi_array<float, 4>>("multi-array4");
    grp<fu::vector<vec, vec, double>>("fusion"); grp<fu::vector<vec, boost::multi_array<double, 2>, double>>("fusion-mixed");
    fixed<std::array<double, 3>>("array", {{1, 2, 3}}, {{4, 5, 6}}); fixed<Fix>("struct", Fix{{1, 2, 3}}, Fix{{4, 5, 6}}); fixed<double>("double", 1.5, 2.5); fixed<std::complex<double>>("complex", {1, 2}, {3, 4});
    // ublas matrices and permutation matrices sized by a vector (the temporaries of the implicit steppers), mixed element types
    H::group("matrix-by-vector", 150, [](Rng &r) { ode::state_wrapper<ub::matrix<double>> m; ode::state_wrapper<ub::permutation_matrix<size_t>> p; size_t n = 0; boost::true_type t; for (int i = 0; i < 8; ++i) { ub::vector<double> x(r.coin(0.2) && n ? n : r.range(1, 9)); bool ch = m.m_v.size1() != x.size() || m.m_v.size2() != x.size(), cp = p.m_v.size() != x.size(); n = x.size(); H::describe("size ", n); H::nontrivial(); HREQUIRE(ode::same_size(m.m_v, x) == !ch && ode::same_size(p.m_v, x) == !cp, "same-size", "wrong"); HREQUIRE(ode::adjust_size_by_resizeability(m, x, t) == ch && ode::adjust_size_by_resizeability(p, x, t) == cp, "adjust-result", "wrong result"); HREQUIRE(m.m_v.size1() == n && m.m_v.size2() == n && p.m_v.size() == n, "size", m.m_v.size1(), "x", m.m_v.size2(), " ", p.m_v.size()); for (size_t a = 0; a < n; ++a) { p.m_v(a) = a; for (size_t b = 0; b < n; ++b) m.m_v(a, b) = a + b; } if (r.coin()) m.m_v.resize(r.range(1, 9), r.range(1, 9)); } });
    H::group("mixed", 150, [](Rng &r) { std::vector<double> x(r.range(0, 9)); std::vector<float> y(r.range(0, 9)); std::deque<double> z(r.range(0, 9)); std::array<double, 4> a; H::describe(x.size(), " ", y.size(), " ", z.size()); H::nontrivial(); HREQUIRE(ode::same_size(x, y) == (x.size() == y.size()) && ode::same_size(y, z) == (y.size() == z.size()) && ode::same_size(x, a) == (x.size() == 4), "same-size", "of different containers"); ode::resize(x, z); ode::resize(y, a); HREQUIRE(x.size() == z.size() && y.size() == 4, "size", "of different containers"); });
#elif PART == 1
    grp<Eigen::VectorXd>("VectorXd"); grp<Eigen::RowVectorXd>("RowVectorXd"); grp<Eigen::MatrixXd>("MatrixXd"); grp<Eigen::ArrayXd>("ArrayXd"); grp<Eigen::ArrayXXd>("ArrayXXd"); grp<Eigen::Matrix<double, 3, 1>>("Vector3d"); grp<Eigen::Matrix<double, -1, 2>>("MatrixX2");
#elif PART == 2
    grp<thrust::host_vector<double>>("host_vector"); grp<thrust::device_vector<double>>("device_vector");
    H::group("vector-by-range", 100, [](Rng &r) { std::vector<double> x(r.range(1, 9)); thrust::device_vector<double> y(r.range(1, 9)); H::describe(x.size(), " ", y.size()); H::nontrivial(); HREQUIRE(ode::same_size(y, x) == (x.size() == y.size()), "same-size", "of different containers"); ode::resize(y, x); HREQUIRE(x.size() == y.size(), "size", y.size()); std::iota(x.begin(), x.end(), 1.); ode::copy(x, y); for (size_t i = 0; i < x.size(); ++i) HREQUIRE(double(y[i]) == x[i], "copy", "element ", i); });
#elif PART == 3
    H::group("gsl", 200, [](Rng &r) { typedef ode::state_wrapper<gsl_vector *> W; W w; boost::true_type t; std::vector<std::unique_ptr<W>> old; std::vector<double> sum; size_t n = 1; auto tot = [](const W &q) { double s = 0; for (size_t i = 0; i < q.m_v->size; ++i) s += gsl_vector_get(q.m_v, i); return s; }; gsl_vector_set_all(w.m_v, 0.5);
        for (int i = 0; i < 10; ++i) { size_t m = r.coin(0.2) ? n : r.range(1, 9); gsl_vector *x = gsl_vector_alloc(m); for (size_t k = 0; k < m; ++k) gsl_vector_set(x, k, r.uni(-1, 1)); H::describe("from ", n, " to ", m); H::nontrivial(); HREQUIRE(ode::same_size(w.m_v, x) == (m == n), "same-size", "wrong"); bool ch = ode::adjust_size_by_resizeability(w, x, t); HREQUIRE(ch == (m != n) && w.m_v->size == m, "size", w.m_v->size, " result ", ch); ode::copy(x, w.m_v); for (size_t k = 0; k < m; ++k) HREQUIRE(gsl_vector_get(w.m_v, k) == gsl_vector_get(x, k) && w.m_v->data != x->data, "copy", "element ", k); gsl_vector_free(x); n = m;
            if (r.coin(0.4)) { old.emplace_back(new W(w)); sum.push_back(tot(w)); } else if (r.coin(0.3) && !old.empty()) { size_t k = r.range(0, int(old.size()) - 1); if (r.coin()) w = *old[k]; else { W z(*old[k]); w = z; } n = w.m_v->size; HREQUIRE(tot(w) == sum[k], "wrapper-assign", "content lost"); } else if (r.coin(0.2)) { W &s = w; double a = tot(w); w = s; HREQUIRE(tot(w) == a, "wrapper-assign", "self assignment"); } }
        for (size_t k = 0; k < old.size(); ++k) HREQUIRE(tot(*old[k]) == sum[k], "wrapper-copy", "an earlier copy was modified"); });
#elif PART == 4
    grp<ode::openmp_state<double>>("openmp_state");
#endif
    return H::finish(); }
