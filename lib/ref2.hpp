// Further reference models in long double: Rosenbrock (RODAS, L-stable, order 4(3)), Bulirsch-Stoer/extrapolation tables.
#ifndef VERIF_REF2_HPP
#define VERIF_REF2_HPP
#include "tab.hpp"
namespace R {
typedef std::vector<V> M;
inline V solve(M A, V b) { // Gaussian elimination with partial pivoting
    int n = int(b.size());
    for (int k = 0; k < n; ++k) { int p = k; for (int i = k + 1; i < n; ++i) if (std::fabs(A[i][k]) > std::fabs(A[p][k])) p = i; std::swap(A[k], A[p]); std::swap(b[k], b[p]); for (int i = k + 1; i < n; ++i) { LD m = A[i][k] / A[k][k]; for (int j = k; j < n; ++j) A[i][j] -= m * A[k][j]; b[i] -= m * b[k]; } }
    for (int k = n - 1; k >= 0; --k) { for (int j = k + 1; j < n; ++j) b[k] -= A[k][j] * b[j]; b[k] /= A[k][k]; } return b;
}
struct Ros { V x, err, x0; LD t, h; V c3, c4; std::vector<V> X; V T;
    V dense(LD tt) const { V r(x.size()); LD s = (tt - t) / h, s1 = 1 - s; for (size_t i = 0; i < r.size(); ++i) r[i] = x0[i] * s1 + s * (x[i] + s1 * (c3[i] + s * c4[i])); return r; } };
// RODAS coefficients as published (Hairer & Wanner II; Numerical Recipes 3rd ed., StepperRoss)
template <class F, class J> Ros rodas(F f, J jac, const V &x, LD t, LD h) {
    const LD gam = 0.25L; const LD a[5][5] = {{}, {1.544L}, {0.9466785280815826L, 0.2557011698983284L}, {3.314825187068521L, 2.896124015972201L, 0.9986419139977817L}, {1.221224509226641L, 6.019134481288629L, 12.53708332932087L, -0.6878860361058950L}};
    const LD c[6][6] = {{}, {-5.6688L}, {-2.430093356833875L, -0.2063599157091915L}, {-0.1073529058151375L, -9.594562251023355L, -20.47028614809616L}, {7.496443313967647L, -10.24680431464352L, -33.99990352819905L, 11.70890893206160L}, {8.083246795921522L, -7.981132988064893L, -31.52159432874371L, 16.31930543123136L, -6.058818238834054L}};
    const LD al[5] = {0, 0.386L, 0.21L, 0.63L, 1}, d[5] = {0.25L, -0.1043L, 0.1035L, -0.0362L, 0};
    const LD d2[5] = {10.12623508344586L, -7.487995877610167L, -34.80091861555747L, -7.992771707568823L, 1.025137723295662L}, d3[5] = {-0.6762803392801253L, 6.087714651680015L, 16.43084320892478L, 24.76722511418386L, -6.594389125716872L};
    size_t n = x.size(); Ros o; o.x0 = x; o.t = t; o.h = h; V ft(n); M A = jac(x, t, ft); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) A[i][j] = (i == j ? 1 / (gam * h) : 0) - A[i][j];
    std::vector<V> g; V y;
    for (int s = 0; s < 5; ++s) { y = x; for (int j = 0; j < s; ++j) for (size_t i = 0; i < n; ++i) y[i] += a[s][j] * g[j][i]; o.X.push_back(y); o.T.push_back(t + al[s] * h); V r = f(y, o.T.back()); for (size_t i = 0; i < n; ++i) { r[i] += h * d[s] * ft[i]; for (int j = 0; j < s; ++j) r[i] += c[s][j] * g[j][i] / h; } g.push_back(solve(A, r)); }
    for (size_t i = 0; i < n; ++i) y[i] += g[4][i]; o.X.push_back(y); o.T.push_back(t + h); V r = f(y, t + h); for (size_t i = 0; i < n; ++i) for (int j = 0; j < 5; ++j) r[i] += c[5][j] * g[j][i] / h; o.err = solve(A, r);
    o.x = y; for (size_t i = 0; i < n; ++i) o.x[i] += o.err[i]; o.c3.assign(n, 0); o.c4.assign(n, 0); for (int j = 0; j < 5; ++j) for (size_t i = 0; i < n; ++i) { o.c3[i] += d2[j] * g[j][i]; o.c4[i] += d3[j] * g[j][i]; }
    return o;
}
// Aitken-Neville table in (h/n)^2 over modified midpoint results with the substep numbers seq; T[k][j]
template <class F> std::vector<std::vector<V>> neville(const std::vector<int> &seq, F f, const V &x, LD t, LD h) {
    std::vector<std::vector<V>> T;
    for (size_t k = 0; k < seq.size(); ++k) { std::vector<V> row; row.push_back(midpoint(seq[k], f, x, t, h).x); for (size_t j = 1; j <= k; ++j) { LD q = LD(seq[k]) / seq[k - j]; V v = row[j - 1]; for (size_t i = 0; i < x.size(); ++i) v[i] += (row[j - 1][i] - T[k - 1][j - 1][i]) / (q * q - 1); row.push_back(v); } T.push_back(row); }
    return T;
}
inline std::vector<int> even(int m) { std::vector<int> s; for (int i = 1; i <= m; ++i) s.push_back(2 * i); return s; }
struct Tol { double ea, er, ax, ad; };
inline LD rel_err(const Tol &q, const V &err, const V &x, const V &dx, LD h) { LD m = 0; for (size_t i = 0; i < x.size(); ++i) m = std::max(m, std::fabs(err[i]) / (q.ea + q.er * (q.ax * std::fabs(x[i]) + q.ad * std::fabs(h) * std::fabs(dx[i])))); return m; }
} // namespace R
namespace T {
struct PF { const Prob *p; R::V operator()(const R::V &x, R::LD t) const { R::V d(x.size()); p->rhs<R::LD>(x, d, t); return d; } };
struct MJ { R::M m; R::LD &operator()(int i, int j) { return m[i][j]; } };
struct PJ { const Prob *p; R::M operator()(const R::V &x, R::LD t, R::V &ft) const { MJ J; J.m.assign(x.size(), R::V(x.size())); p->jac<R::LD>(x, J, t, ft); return J.m; } };
} // namespace T
#endif
