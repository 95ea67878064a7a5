// Test problems (independent of the code under test): right-hand sides with and without known solution, call logs.
#ifndef VERIF_SYS_HPP
#define VERIF_SYS_HPP
#include "h.hpp"
#include <sched.h>
#include <memory>

namespace T {
using H::Rng;

struct Entry { long double t; std::vector<double> x; };
struct Log {
    long calls = 0, budget = 20000000; bool rec = false; std::vector<Entry> e;
    unsigned yield = 0; // give up the processor at every yield-th call
    long throw_at = -1; // throw UserErr at this call number (1-based)
};
struct UserErr { int id; };

// x_i' = e_i'(t) - l_i (x_i - e_i) + c_i sin(x_{i+1} - e_{i+1}),  e_i(t) = a_i sin(w_i t + p_i) + b_i
// => x = e is the exact solution for every t0; Jacobian known.
struct Prob {
    int n = 1; std::vector<double> a, w, p, b, l, c; double s = 1; // s=-1: mirrored problem y' = -f(y,-t)
    static Prob make(Rng &r, int n, double wmax = 2.0, double lmax = 0.4, double amp = 2.0) {
        Prob q; q.n = n;
        for (int i = 0; i < n; ++i) {
            q.a.push_back(r.uni(0.3, amp) * r.sign()); q.w.push_back(r.uni(0.3, wmax)); q.p.push_back(r.uni(0, 6.28));
            q.b.push_back(r.uni(-1, 1)); q.l.push_back(r.uni(-lmax, lmax)); q.c.push_back(r.uni(-lmax, lmax));
        }
        return q;
    }
    Prob mirrored() const { Prob q = *this; q.s = -q.s; return q; }
    // bound of the amplification of a disturbance over the (signed) time span len
    double amp(double len) const { double r = 0; for (int i = 0; i < n; ++i) r = std::max(r, (len * s > 0 ? -l[i] : l[i]) + std::fabs(c[i])); return std::exp(r * std::fabs(len)); }
    template <class V> V ex(int i, V t) const { using std::sin; t = V(s) * t; return V(a[i]) * sin(V(w[i]) * t + V(p[i])) + V(b[i]); }
    template <class V> V exd(int i, V t) const { using std::cos; t = V(s) * t; return V(a[i]) * V(w[i]) * cos(V(w[i]) * t + V(p[i])); }
    template <class V> V exdd(int i, V t) const { using std::sin; t = V(s) * t; return -V(a[i]) * V(w[i]) * V(w[i]) * sin(V(w[i]) * t + V(p[i])); }
    template <class V, class X, class D> void rhs(const X &x, D &d, V t) const {
        using std::sin;
        for (int i = 0; i < n; ++i) {
            int j = (i + 1) % n;
            V v = exd<V>(i, t) - V(l[i]) * (V(x[i]) - ex<V>(i, t)) + V(c[i]) * sin(V(x[j]) - ex<V>(j, t));
            d[i] = V(s) * v;
        }
    }
    template <class V> std::vector<V> exact(V t) const { std::vector<V> v; for (int i = 0; i < n; ++i) v.push_back(ex<V>(i, t)); return v; }
    // J(i,j) = df_i/dx_j, dfdt_i
    template <class V, class X, class M, class D> void jac(const X &x, M &J, V t, D &dfdt) const {
        using std::cos;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) J(i, j) = 0;
        for (int i = 0; i < n; ++i) {
            int j = (i + 1) % n; V u = V(x[j]) - ex<V>(j, t);
            J(i, i) += V(s) * (-V(l[i])); J(i, j) += V(s) * V(c[i]) * cos(u);
            // d/dt of s*(e_i'(st) + l e_i(st) + c sin(x - e_j(st)))  ; inner derivative gives another factor s
            dfdt[i] = exdd<V>(i, t) + V(l[i]) * exd<V>(i, t) - V(c[i]) * cos(u) * exd<V>(j, t);
        }
    }
};

template <class X> auto sz(const X &x) -> decltype(x.size()) { return x.size(); }

// functor wrapper usable with any indexable state
struct Sys {
    const Prob *p; Log *log;
    Sys(const Prob &q, Log &l) : p(&q), log(&l) {}
    template <class X, class D, class Tm> void operator()(const X &x, D &d, Tm t) const {
        if (++log->calls > log->budget) throw H::Budget();
        if (log->yield && log->calls % log->yield == 0) sched_yield();
        if (log->calls == log->throw_at) throw UserErr{int(log->calls)};
        if (log->rec) { Entry e; e.t = static_cast<long double>(t); for (int i = 0; i < p->n; ++i) e.x.push_back(double(x[i])); log->e.push_back(e); }
        typedef typename std::decay<decltype(x[0])>::type V;
        p->template rhs<V>(x, d, V(t));
    }
};
// generic smooth nonautonomous rhs without structure (used where only step formulas matter)
struct Rough {
    int n; std::vector<double> a, b, c, d, e, f; double ts = 1; // ts: time scale, the right-hand side is ts*g(x, ts*t)
    static Rough make(Rng &r, int n) { Rough q; q.n = n; for (int i = 0; i < n; ++i) { q.a.push_back(r.uni(-2, 2)); q.b.push_back(r.uni(-2, 2)); q.c.push_back(r.uni(0, 6)); q.d.push_back(r.uni(-1, 1)); q.e.push_back(r.uni(-2, 2)); q.f.push_back(r.uni(-1, 1)); } return q; }
    template <class V, class X, class D> void rhs(const X &x, D &o, V t) const {
        using std::sin; using std::cos;
        t = V(ts) * t;
        for (int i = 0; i < n; ++i) { int j = (i + 1) % n, k = (i + 2) % n;
            V v = V(a[i]) * sin(V(b[i]) * t + V(c[i])) + V(d[i]) * V(x[i]) + V(e[i]) * sin(V(x[j])) * cos(V(t)) + V(f[i]) * cos(V(x[k]) + t); o[i] = V(ts) * v; }
    }
};

inline double maxabs(const std::vector<double> &v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
// largest difference, NaN-safe (NaN -> inf)
template <class A, class B> double diff(const A &a, const B &b, int n) { double m = 0; for (int i = 0; i < n; ++i) { double d = std::fabs(double(a[i] - b[i])); if (!(d <= 1e300)) return INFINITY; m = std::max(m, d); } return m; }
template <class A> std::string str(const A &a, int n) { std::ostringstream o; o.precision(17); o << "("; for (int i = 0; i < n; ++i) o << (i ? "," : "") << a[i]; o << ")"; return o.str(); }
} // namespace T
#endif
