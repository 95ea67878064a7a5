// Reference Butcher tableaux (from the literature) evaluated in long double; independent of the code under test.
#ifndef VERIF_TAB_HPP
#define VERIF_TAB_HPP
#include "sys.hpp"
namespace R {
typedef long double LD; typedef std::vector<LD> V;
struct Tab { int s; std::vector<V> a; V b, c, bh; bool fsal = false; }; // bh: embedded weights (empty: none)
struct Out { V x, err, dnew; std::vector<V> X, K; V T; };
// f(x,t) -> derivative
template <class F> Out step(const Tab &q, F f, const V &x, LD t, LD h) {
    Out o; size_t n = x.size();
    for (int i = 0; i < q.s; ++i) { V y = x; for (int j = 0; j < i; ++j) for (size_t k = 0; k < n; ++k) y[k] += h * q.a[i][j] * o.K[j][k]; o.X.push_back(y); o.T.push_back(t + q.c[i] * h); o.K.push_back(f(y, o.T[i])); }
    o.x = x; for (int j = 0; j < q.s; ++j) for (size_t k = 0; k < n; ++k) o.x[k] += h * q.b[j] * o.K[j][k];
    if (!q.bh.empty()) { o.err.assign(n, 0); for (int j = 0; j < q.s; ++j) for (size_t k = 0; k < n; ++k) o.err[k] += h * (q.b[j] - q.bh[j]) * o.K[j][k]; }
    return o;
}
inline Tab mk(std::vector<V> a, V b, V c, V bh = V()) { Tab q; q.s = int(b.size()); q.a = a; q.b = b; q.c = c; q.bh = bh; return q; }
inline Tab euler() { return mk({{}}, {1}, {0}); }
inline Tab rk4() { return mk({{}, {0.5L}, {0, 0.5L}, {0, 0, 1}}, {1 / 6.0L, 1 / 3.0L, 1 / 3.0L, 1 / 6.0L}, {0, 0.5L, 0.5L, 1}); }
inline Tab ck54() { return mk({{}, {1 / 5.L}, {3 / 40.L, 9 / 40.L}, {3 / 10.L, -9 / 10.L, 6 / 5.L}, {-11 / 54.L, 5 / 2.L, -70 / 27.L, 35 / 27.L}, {1631 / 55296.L, 175 / 512.L, 575 / 13824.L, 44275 / 110592.L, 253 / 4096.L}},
    {37 / 378.L, 0, 250 / 621.L, 125 / 594.L, 0, 512 / 1771.L}, {0, 1 / 5.L, 3 / 10.L, 3 / 5.L, 1, 7 / 8.L}, {2825 / 27648.L, 0, 18575 / 48384.L, 13525 / 55296.L, 277 / 14336.L, 1 / 4.L}); }
inline Tab dopri5() { Tab q = mk({{}, {1 / 5.L}, {3 / 40.L, 9 / 40.L}, {44 / 45.L, -56 / 15.L, 32 / 9.L}, {19372 / 6561.L, -25360 / 2187.L, 64448 / 6561.L, -212 / 729.L}, {9017 / 3168.L, -355 / 33.L, 46732 / 5247.L, 49 / 176.L, -5103 / 18656.L}, {35 / 384.L, 0, 500 / 1113.L, 125 / 192.L, -2187 / 6784.L, 11 / 84.L}},
    {35 / 384.L, 0, 500 / 1113.L, 125 / 192.L, -2187 / 6784.L, 11 / 84.L, 0}, {0, 1 / 5.L, 3 / 10.L, 4 / 5.L, 8 / 9.L, 1, 1}, {5179 / 57600.L, 0, 7571 / 16695.L, 393 / 640.L, -92097 / 339200.L, 187 / 2100.L, 1 / 40.L}); q.fsal = true; return q; }
inline Tab rkf78() { return mk({{}, {2 / 27.L}, {1 / 36.L, 1 / 12.L}, {1 / 24.L, 0, 1 / 8.L}, {5 / 12.L, 0, -25 / 16.L, 25 / 16.L}, {1 / 20.L, 0, 0, 1 / 4.L, 1 / 5.L}, {-25 / 108.L, 0, 0, 125 / 108.L, -65 / 27.L, 125 / 54.L}, {31 / 300.L, 0, 0, 0, 61 / 225.L, -2 / 9.L, 13 / 900.L}, {2, 0, 0, -53 / 6.L, 704 / 45.L, -107 / 9.L, 67 / 90.L, 3},
    {-91 / 108.L, 0, 0, 23 / 108.L, -976 / 135.L, 311 / 54.L, -19 / 60.L, 17 / 6.L, -1 / 12.L}, {2383 / 4100.L, 0, 0, -341 / 164.L, 4496 / 1025.L, -301 / 82.L, 2133 / 4100.L, 45 / 82.L, 45 / 164.L, 18 / 41.L}, {3 / 205.L, 0, 0, 0, 0, -6 / 41.L, -3 / 205.L, -3 / 41.L, 3 / 41.L, 6 / 41.L, 0}, {-1777 / 4100.L, 0, 0, -341 / 164.L, 4496 / 1025.L, -289 / 82.L, 2193 / 4100.L, 51 / 82.L, 33 / 164.L, 12 / 41.L, 0, 1}},
    {0, 0, 0, 0, 0, 34 / 105.L, 9 / 35.L, 9 / 35.L, 9 / 280.L, 9 / 280.L, 0, 41 / 840.L, 41 / 840.L}, {0, 2 / 27.L, 1 / 9.L, 1 / 6.L, 5 / 12.L, 1 / 2.L, 5 / 6.L, 1 / 6.L, 2 / 3.L, 1 / 3.L, 1, 0, 1}, {41 / 840.L, 0, 0, 0, 0, 34 / 105.L, 9 / 35.L, 9 / 35.L, 9 / 280.L, 9 / 280.L, 41 / 840.L, 0, 0}); }
// modified midpoint (Gragg, smoothed) with n substeps; returns x and the evaluations
template <class F> Out midpoint(int m, F f, const V &x, LD t, LD H) {
    Out o; size_t n = x.size(); LD h = H / m; V z0 = x, z1(n), k;
    o.X.push_back(x); o.T.push_back(t); k = f(x, t); o.K.push_back(k); for (size_t i = 0; i < n; ++i) z1[i] = x[i] + h * k[i];
    for (int j = 1; j < m; ++j) { LD tj = t + j * h; o.X.push_back(z1); o.T.push_back(tj); k = f(z1, tj); o.K.push_back(k); V z2(n); for (size_t i = 0; i < n; ++i) z2[i] = z0[i] + 2 * h * k[i]; z0 = z1; z1 = z2; }
    o.X.push_back(z1); o.T.push_back(t + H); k = f(z1, t + H); o.K.push_back(k); o.x.resize(n); for (size_t i = 0; i < n; ++i) o.x[i] = 0.5L * (z0[i] + z1[i] + h * k[i]);
    return o;
}
} // namespace R
namespace T {
// right-hand side functor on top of Rough with call log
struct RSys {
    const Rough *p; Log *log; RSys(const Rough &q, Log &l) : p(&q), log(&l) {}
    template <class X, class D, class Tm> void operator()(const X &x, D &d, Tm t) const {
        if (++log->calls > log->budget) throw H::Budget();
        if (log->calls == log->throw_at) throw UserErr{int(log->calls)};
        if (log->rec) { Entry e; e.t = t; for (int i = 0; i < p->n; ++i) e.x.push_back(double(x[i])); log->e.push_back(e); }
        typedef typename std::decay<decltype(x[0])>::type V; p->template rhs<V>(x, d, V(t));
    }
};
struct RF { const Rough *p; R::V operator()(const R::V &x, R::LD t) const { R::V d(x.size()); p->rhs<R::LD>(x, d, t); return d; } };
inline R::V lv(const std::vector<double> &x) { return R::V(x.begin(), x.end()); }
// every expected evaluation (from index lo on) is matched by exactly one logged one and vice versa
inline std::string match_log(const Log &l, const R::Out &o, size_t lo, double tol) {
    if (l.e.size() != o.X.size() - lo) return H::cat("system evaluated ", l.e.size(), " times, the method needs ", o.X.size() - lo);
    std::vector<bool> used(l.e.size());
    for (size_t i = lo; i < o.X.size(); ++i) {
        bool ok = false; double best = 1e300;
        for (size_t j = 0; j < l.e.size() && !ok; ++j) if (!used[j]) { double d = std::fabs(double(l.e[j].t - o.T[i])); for (size_t k = 0; k < o.X[i].size(); ++k) d = std::max(d, std::fabs(double(l.e[j].x[k] - o.X[i][k]))); best = std::min(best, d); if (d <= tol) { used[j] = true; ok = true; } }
        if (!ok) return H::cat("no evaluation at stage ", i, " t=", double(o.T[i]), " (closest evaluation differs by ", best, ")");
    }
    return "";
}
} // namespace T
#endif
