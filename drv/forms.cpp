// C10 (C16): call forms that differ only in how system, state and derivative are handed over give the same result.
// PART 0: explicit steppers, 1: controlled, symplectic, multistep, implicit
#include "zoo.hpp"
#include "tab.hpp"
#include <deque>
#include <functional>
#include <boost/function.hpp>
#include <boost/bind/bind.hpp>
#include <boost/range/iterator_range.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
using namespace Z; using H::Rng;
static const T::Rough *gp;
// the right-hand side written for any range (iterators only)
template <class X, class D> static void rangef(const X &x, D &d, double t) { vec a(boost::begin(x), boost::end(x)), b(a.size()); gp->rhs<double>(a, b, t); std::copy(b.begin(), b.end(), boost::begin(d)); }
static void fptr(const vec &x, vec &d, const double t) { gp->rhs<double>(x, d, t); }
struct Fun { template <class X, class D> void operator()(const X &x, D &d, double t) const { rangef(x, d, t); } template <class X, class D> void operator()(const X &x, const D &d, double t) const { rangef(x, const_cast<D &>(d), t); } };
struct NonConst { int calls = 0; void operator()(const vec &x, vec &d, double t) { ++calls; gp->rhs<double>(x, d, t); } };
struct Member { void ode(const vec &x, vec &d, double t) { gp->rhs<double>(x, d, t); } };
typedef boost::iterator_range<vec::iterator> rng; typedef boost::iterator_range<vec::const_iterator> crng;
struct Pad { vec v; int o, n; explicit Pad(const vec &x, int off = 2) : v(x.size() + 2 * off, 123.25), o(off), n(int(x.size())) { std::copy(x.begin(), x.end(), v.begin() + o); } rng r() { return rng(v.begin() + o, v.begin() + o + n); } crng c() const { return crng(v.begin() + o, v.begin() + o + n); } vec get() const { return vec(v.begin() + o, v.begin() + o + n); } bool clean() const { for (int i = 0; i < o; ++i) if (v[i] != 123.25 || v[o + n + i] != 123.25) return false; return true; } };
static void same(const char *form, const vec &a, const vec &b, double h = 1) { double d = a.size() == b.size() ? T::diff(a, b, a.size()) : INFINITY; HCHECK(d <= 1e-13 * (1 + T::maxabs(b)), form, "result differs from the plain call by ", d, ": ", T::str(a, a.size()), " vs ", T::str(b, b.size())); H::count("forms"); }
#define CLEAN(p) HCHECK((p).clean(), "outside-range-written", "elements next to the given range changed")
struct Sample { vec x; double t, dt; };
static Sample mk(Rng &r, int n) { Sample s; s.x.resize(n); for (auto &v : s.x) v = r.uni(-2, 2); s.t = r.uni(-10, 10); s.dt = r.sign() * r.logu(1e-3, 0.8); return s; }
template <class S, class Mk> void explicit_forms(const char *nm, Mk mks, bool fsal, bool deriv) {
    H::group(nm, 60, [&](Rng &r) { int n = r.range(1, 7); T::Rough p = T::Rough::make(r, n); gp = &p; Sample q = mk(r, n); H::describe(nm, " dim=", n, " t=", q.t, " dt=", q.dt); H::nontrivial(); double t = q.t, dt = q.dt;
        auto fresh = mks; vec ref; { auto s = fresh(); vec x = q.x; s.do_step(Fun(), x, t, dt); ref = x; } HCHECK(ref != q.x, "no-effect", "");
        auto one = fresh(); auto st = [&]() -> S & { if (fsal) one = fresh(); return one; }; // steppers without history may be reused for everything
        // systems
        { vec x = q.x; st().do_step(fptr, x, t, dt); same("function-pointer", x, ref); x = q.x; st().do_step(&fptr, x, t, dt); same("function-pointer", x, ref); }
        { std::function<void(const vec &, vec &, double)> f = fptr; vec x = q.x; st().do_step(f, x, t, dt); same("std-function", x, ref); x = q.x; st().do_step(std::ref(f), x, t, dt); same("std-ref", x, ref); x = q.x; st().do_step(boost::ref(f), x, t, dt); same("boost-ref", x, ref); }
        { boost::function<void(const vec &, vec &, double)> f = fptr; vec x = q.x; st().do_step(f, x, t, dt); same("boost-function", x, ref); Member m; x = q.x; st().do_step(boost::bind(&Member::ode, &m, boost::placeholders::_1, boost::placeholders::_2, boost::placeholders::_3), x, t, dt); same("bound-member", x, ref); }
        { NonConst f; vec x = q.x; st().do_step(std::ref(f), x, t, dt); same("non-const-functor", x, ref); HCHECK(f.calls > 0, "reference-not-used", "the wrapped system was not called"); NonConst g; x = q.x; st().do_step(g, x, t, dt); same("non-const-functor", x, ref); HCHECK(g.calls == 0, "system-not-copied", "system passed by value was called itself"); x = q.x; st().do_step([](const vec &y, vec &d, double tt) { gp->rhs<double>(y, d, tt); }, x, t, dt); same("lambda", x, ref); }
        // states
        { Pad a(q.x); auto rr = a.r(); st().do_step(Fun(), rr, t, dt); same("range-in-place", a.get(), ref); CLEAN(a); Pad b(q.x); st().do_step(Fun(), b.r(), t, dt); same("range-temporary", b.get(), ref); CLEAN(b); }
        { Pad a(q.x), o(vec(n, NAN)); auto ri = a.c(); auto ro = o.r(); st().do_step(Fun(), ri, t, ro, dt); same("range-out-of-place", o.get(), ref); HCHECK(a.get() == q.x, "input-modified", ""); CLEAN(a); CLEAN(o); vec out(n, NAN); st().do_step(Fun(), ri, t, out, dt); same("range-to-vector", out, ref); Pad o2(vec(n, NAN)); auto r2 = o2.r(); st().do_step(Fun(), q.x, t, r2, dt); same("vector-to-range", o2.get(), ref); CLEAN(o2); }
        { std::deque<double> d(q.x.begin(), q.x.end()); st().do_step(Fun(), d, t, dt); same("deque-state", vec(d.begin(), d.end()), ref); }
        { vec x = q.x; st().do_step(Fun(), x, t, x, dt); same("output-is-input", x, ref); }
        { const vec cx = q.x; vec o(n, NAN); st().do_step(Fun(), cx, t, o, dt); same("const-input", o, ref); HCHECK(cx == q.x, "input-modified", ""); }
        extra_deriv(st, q, p, ref, n, std::integral_constant<int, 0>(), deriv, fsal);
        // two independent trajectories interleaved on one stepper object
        if (!fsal) { S a = fresh(), b = fresh(), c = fresh(); Sample q2 = mk(r, n); vec x1 = q.x, x2 = q2.x, y1 = q.x, y2 = q2.x; for (int k = 0; k < 4; ++k) { a.do_step(Fun(), x1, t + k * dt, dt); a.do_step(Fun(), x2, q2.t + k * q2.dt, q2.dt); b.do_step(Fun(), y1, t + k * dt, dt); c.do_step(Fun(), y2, q2.t + k * q2.dt, q2.dt); } same("interleaved", x1, y1); same("interleaved", x2, y2); } });
}
template <class ST> void extra_deriv(ST st, const Sample &q, const T::Rough &p, const vec &ref, int n, std::integral_constant<int, 0>, bool deriv, bool fsal) {
    if (!deriv || fsal) return; vec d(n); p.rhs<double>(q.x, d, q.t); vec d0 = d; double t = q.t, dt = q.dt;
    do_deriv(st(), st, q, d, d0, ref, n, t, dt, 0);
}
template <class S, class ST> auto do_deriv(S &s, ST st, const Sample &q, vec &d, const vec &d0, const vec &ref, int n, double t, double dt, int) -> decltype(s.do_step(Fun(), q.x, d, t, d, dt), void()) {
    { vec x = q.x; s.do_step(Fun(), x, d, t, dt); same("derivative-in-place", x, ref); HCHECK(d == d0, "derivative-modified", ""); } { vec o(n, NAN); s.do_step(Fun(), q.x, d, t, o, dt); same("derivative-out-of-place", o, ref); HCHECK(d == d0, "derivative-modified", ""); }
    { Pad a(q.x), dd(d0); auto rr = a.r(); auto rd = dd.c(); s.do_step(Fun(), rr, rd, t, dt); same("derivative-ranges-in-place", a.get(), ref); CLEAN(a); CLEAN(dd); HCHECK(dd.get() == d0, "derivative-modified", ""); } { Pad a(q.x), dd(d0), o(vec(n, NAN)); auto ra = a.c(); auto rd = dd.c(); auto ro = o.r(); s.do_step(Fun(), ra, rd, t, ro, dt); same("derivative-ranges", o.get(), ref); CLEAN(a); CLEAN(dd); CLEAN(o); HCHECK(a.get() == q.x && dd.get() == d0, "input-modified", ""); }
    { vec x = q.x; s.do_step(Fun(), x, d, t, x, dt); same("derivative-output-is-input", x, ref); }
}
template <class S, class ST> void do_deriv(S &, ST, const Sample &, vec &, const vec &, const vec &, int, double, double, long) {}
template <class S> void err_forms(const char *nm, bool fsal) {
    H::group(std::string(nm) + "-error", 40, [&](Rng &r) { int n = r.range(1, 6); T::Rough p = T::Rough::make(r, n); gp = &p; Sample q = mk(r, n); double t = q.t, dt = q.dt; H::describe(nm, " dim=", n, " t=", t, " dt=", dt); H::nontrivial(); vec ref = q.x, e(n); { S s; s.do_step(Fun(), ref, t, dt, e); } vec nx = q.x; { S s; s.do_step(Fun(), nx, t, dt); } same("error-form-changes-state", ref, nx);
        { S s; Pad a(q.x), er(vec(n, NAN)); auto ra = a.r(); auto re = er.r(); s.do_step(Fun(), ra, t, dt, re); same("error-range-in-place", a.get(), ref); same("error-range-in-place-error", er.get(), e); CLEAN(a); CLEAN(er); } { S s; Pad a(q.x), o(vec(n, NAN)), er(vec(n, NAN)); auto ra = a.c(); auto ro = o.r(); auto re = er.r(); s.do_step(Fun(), ra, t, ro, dt, re); same("error-range-out", o.get(), ref); same("error-range-out-error", er.get(), e); HCHECK(a.get() == q.x, "input-modified", ""); CLEAN(a); CLEAN(o); CLEAN(er); }
        { S s; vec x = q.x, er(n, NAN); s.do_step(std::ref(fptr), x, t, x, dt, er); same("error-output-is-input", x, ref); same("error-output-is-input-error", er, e); } { S s; vec x = q.x, er(n, NAN); s.do_step(&fptr, x, t, dt, er); same("error-function-pointer", x, ref); same("error-function-pointer-error", er, e); } });
}
#if PART == 1
template <class Mk> void controlled(const char *nm, Mk mkc) {
    H::group(nm, 60, [&](Rng &r) { int n = r.range(1, 6); T::Rough p = T::Rough::make(r, n); gp = &p; Sample q = mk(r, n); H::describe(nm, " dim=", n, " t=", q.t, " dt=", q.dt); H::nontrivial();
        struct Res { bool ok; vec x; double t, dt; }; auto base = [&](auto call) { auto s = mkc(); Res a{false, q.x, q.t, q.dt}; for (int k = 0; k < 6; ++k) { double t0 = a.t; a.ok = call(s, a); (void)t0; } return a; }; auto cmp = [&](const char *f, const Res &a, const Res &b) { HCHECK(a.ok == b.ok && std::fabs(a.t - b.t) <= 1e-12 * (1 + std::fabs(b.t)) && std::fabs(a.dt - b.dt) <= 1e-9 * std::fabs(b.dt), f, "time or step differ: ", a.t, " ", a.dt, " vs ", b.t, " ", b.dt); same(f, a.x, b.x); };
        Res ref = base([&](auto &s, Res &a) { return s.try_step(Fun(), a.x, a.t, a.dt) == ode::success; });
        cmp("function-pointer", base([&](auto &s, Res &a) { return s.try_step(fptr, a.x, a.t, a.dt) == ode::success; }), ref); cmp("std-ref", base([&](auto &s, Res &a) { Fun f; return s.try_step(std::ref(f), a.x, a.t, a.dt) == ode::success; }), ref); cmp("boost-ref", base([&](auto &s, Res &a) { Fun f; return s.try_step(boost::ref(f), a.x, a.t, a.dt) == ode::success; }), ref);
        cmp("out-of-place", base([&](auto &s, Res &a) { vec o(n, NAN), in = a.x; bool ok = s.try_step(Fun(), in, a.t, o, a.dt) == ode::success; HCHECK(in == a.x, "input-modified", ""); if (ok) a.x = o; return ok; }), ref);
        cmp("range-in-place", base([&](auto &s, Res &a) { Pad b(a.x); auto rr = b.r(); bool ok = s.try_step(Fun(), rr, a.t, a.dt) == ode::success; CLEAN(b); a.x = b.get(); return ok; }), ref); cmp("range-temporary", base([&](auto &s, Res &a) { Pad b(a.x); bool ok = s.try_step(Fun(), b.r(), a.t, a.dt) == ode::success; CLEAN(b); a.x = b.get(); return ok; }), ref);
        cmp("range-out-of-place", base([&](auto &s, Res &a) { Pad b(a.x), o(vec(n, NAN)); auto ri = b.c(); auto ro = o.r(); bool ok = s.try_step(Fun(), ri, a.t, ro, a.dt) == ode::success; CLEAN(b); CLEAN(o); HCHECK(b.get() == a.x, "input-modified", ""); if (ok) a.x = o.get(); return ok; }), ref); });
}
template <class S> void sympl(const char *nm) {
    H::group(nm, 40, [&](Rng &r) { int n = r.range(1, 5); vec x(n), y(n); for (auto &v : x) v = r.uni(-1, 1); for (auto &v : y) v = r.uni(-1, 1); double dt = r.sign() * r.logu(1e-3, 0.5), t = 0.5; H::describe(nm, " dim=", n, " dt=", dt); H::nontrivial();
        auto fq = [](const auto &p, auto &d) { auto a = boost::begin(p); for (auto b = boost::begin(d); b != boost::end(d); ++b, ++a) *b = std::sin(*a) + *a; }; auto fp = [](const auto &q, auto &d) { auto a = boost::begin(q); for (auto b = boost::begin(d); b != boost::end(d); ++b, ++a) *b = -std::sin(*a); }; auto sys = std::make_pair(fq, fp);
        vec rx = x, ry = y; { S s; s.do_step(sys, std::make_pair(std::ref(rx), std::ref(ry)), t, dt); } { S s; vec a = x, b = y; s.do_step(sys, a, b, t, dt); same("two-arguments", a, rx); same("two-arguments", b, ry); } { S s; auto st = std::make_pair(x, y); s.do_step(std::ref(sys), st, t, dt); same("pair", st.first, rx); same("pair", st.second, ry); } { S s; Pad a(x), b(y); auto st = std::make_pair(a.r(), b.r()); s.do_step(sys, st, t, dt); same("pair-of-ranges", a.get(), rx); same("pair-of-ranges", b.get(), ry); CLEAN(a); CLEAN(b); }
        { S s; auto in = std::make_pair(x, y), out = std::make_pair(vec(n, NAN), vec(n, NAN)); s.do_step(sys, in, t, out, dt); same("out-of-place", out.first, rx); same("out-of-place", out.second, ry); HCHECK(in.first == x && in.second == y, "input-modified", ""); } { S s; vec a = x, b = y; s.do_step(boost::ref(sys), std::make_pair(boost::ref(a), boost::ref(b)), t, dt); same("boost-ref", a, rx); same("boost-ref", b, ry); } });
}
template <class S, class Go> void multi_ranges(Go go, int n, double dt, const vec &ref, std::true_type) {
    same("range-in-place", go([&](S &s, vec &x, double t) { Pad a(x); auto rr = a.r(); s.do_step(Fun(), rr, t, dt); CLEAN(a); x = a.get(); }), ref);
    same("range-out-of-place", go([&](S &s, vec &x, double t) { Pad a(x), o(vec(n, NAN)); auto ri = a.r(); auto ro = o.r(); s.do_step(Fun(), ri, t, ro, dt); CLEAN(a); CLEAN(o); HCHECK(a.get() == x, "input-modified", ""); x = o.get(); }), ref);
}
template <class S, class Go> void multi_ranges(Go, int, double, const vec &, std::false_type) {}
template <class S, bool Ranges = true> void multi(const char *nm) {
    H::group(nm, 40, [&](Rng &r) { int n = r.range(1, 5); T::Rough p = T::Rough::make(r, n); gp = &p; Sample q = mk(r, n); double dt = q.dt * 0.2; H::describe(nm, " dim=", n, " t=", q.t, " dt=", dt); H::nontrivial(); const int K = 9; auto go = [&](auto call) { S s; vec x = q.x; double t = q.t; for (int k = 0; k < K; ++k) { call(s, x, t); t += dt; } return x; };
        vec ref = go([&](S &s, vec &x, double t) { s.do_step(Fun(), x, t, dt); }); same("function-pointer", go([&](S &s, vec &x, double t) { s.do_step(fptr, x, t, dt); }), ref); same("std-ref", go([&](S &s, vec &x, double t) { Fun f; s.do_step(std::ref(f), x, t, dt); }), ref); multi_ranges<S>(go, n, dt, ref, std::integral_constant<bool, Ranges>());
        same("out-of-place", go([&](S &s, vec &x, double t) { vec o(n, NAN), in = x; s.do_step(Fun(), in, t, o, dt); HCHECK(in == x, "input-modified", ""); x = o; }), ref); same("mixed", go([&](S &s, vec &x, double t) { if (r.coin()) s.do_step(Fun(), x, t, dt); else { vec o(n, NAN); s.do_step(Fun(), x, t, o, dt); x = o; } }), ref); same("output-is-input", go([&](S &s, vec &x, double t) { s.do_step(Fun(), x, t, x, dt); }), ref); });
}
#endif
#if PART == 0
// FSAL stepper: any mixture of the call forms along one trajectory; every step equals the step of a fresh stepper
template <class S> void fsal_mixed(const char *nm) {
    H::group(std::string(nm) + "-mixed", 80, [&](Rng &r) {
        int n = r.range(1, 6); T::Rough p = T::Rough::make(r, n); gp = &p; Sample q = mk(r, n); H::describe(nm, " dim=", n, " t=", q.t, " dt=", q.dt); H::nontrivial(); S s; vec x = q.x; double t = q.t; std::string hist; bool init = false; int K = r.range(3, 20);
        for (int k = 0; k < K; ++k) {
            double dt = q.dt * r.uni(0.3, 1); vec d(n), e(n, NAN), re(n), rd(n), o(n, NAN), dn(n, NAN); p.rhs<double>(x, d, t); vec ref(n); { S f; f.do_step(Fun(), x, t, ref, dt, re); p.rhs<double>(ref, rd, t + dt); } double dm = T::maxabs(rd); int w = r.range(0, 11); bool err = false, der = false; hist += char('a' + w);
            switch (w) {
            case 0: s.do_step(Fun(), x, t, dt); o = x; init = true; break;
            case 1: s.do_step(Fun(), x, t, o, dt); init = true; break;
            case 2: dn = d; o = x; s.do_step(Fun(), o, dn, t, dt); der = true; init = false; break;
            case 3: s.do_step(Fun(), x, d, t, o, dn, dt); der = true; init = false; break;
            case 4: o = x; s.do_step(Fun(), o, t, dt, e); err = true; init = true; break;
            case 5: s.do_step(Fun(), x, t, o, dt, e); err = true; init = true; break;
            case 6: dn = d; o = x; s.do_step(Fun(), o, dn, t, dt, e); err = der = true; init = false; break;
            case 7: s.do_step(Fun(), x, d, t, o, dn, dt, e); err = der = true; init = false; break;
            case 8: s.reset(); HCHECK(!s.is_initialized(), "initialized-flag", "after reset"); s.do_step(Fun(), x, t, o, dt); init = true; break;
            case 9: s.initialize(d); HCHECK(s.is_initialized(), "initialized-flag", "after initialize"); s.do_step(Fun(), x, t, o, dt); init = true; break;
            case 10: s.initialize(Fun(), x, t); s.do_step(Fun(), x, t, o, dt); init = true; break;
            default: { S c(s); S c2; c2 = c; s = c2; s.do_step(Fun(), x, t, o, dt); init = true; } }
            HCHECK(s.is_initialized() == init, "initialized-flag", "sequence ", hist);
            double df = T::diff(o, ref, n); HCHECK(df <= 1e-12 * (1 + T::maxabs(ref)), "mixed-calls", "sequence of forms ", hist, ": step differs from that of a fresh stepper by ", df);
            if (err) HCHECK(T::diff(e, re, n) <= 1e-12 * (1 + T::maxabs(re) + T::maxabs(ref)), "mixed-calls-error", "sequence ", hist); if (der) HCHECK(T::diff(dn, rd, n) <= 1e-9 * (1 + dm), "mixed-calls-derivative", "sequence ", hist, ": the derivative handed out is off by ", T::diff(dn, rd, n));
            x = ref; t += dt; if (!(T::maxabs(x) < 1e6)) break; H::count("mixed-steps"); } });
}
#endif
#if PART == 1
// controlled steppers: any mixture of the call forms along one trajectory; every attempt equals the attempt of a fresh stepper
template <class S, class Err> auto ctl_deriv(Err &s, int w, const vec &x, vec &d, double &t, vec &o, vec &dn, double &dt, std::true_type) { if (w == 2) { dn = d; o = x; return s.try_step(Fun(), o, dn, t, dt); } return s.try_step(Fun(), x, d, t, o, dn, dt); }
template <class S, class Err> auto ctl_deriv(Err &s, int w, const vec &x, vec &d, double &t, vec &o, vec &dn, double &dt, std::false_type) { if (w == 2) { dn = d; o = x; auto q = s.try_step(Fun(), o, dn, t, dt); HCHECK(dn == d, "derivative-modified", ""); return q; } return s.try_step(Fun(), x, d, t, o, dt); }
template <class C> void ctl_special(C &s, int w, const vec &x, const vec &d, double t, std::true_type) { if (w == 4) s.reset(); else if (w == 5) s.initialize(d); else s.initialize(Fun(), x, t); }
template <class C> void ctl_special(C &, int, const vec &, const vec &, double, std::false_type) {}
template <bool Fsal, class Mk> void controlled_mixed(const char *nm, Mk mkc) {
    typedef std::integral_constant<bool, Fsal> FS;
    H::group(std::string(nm) + "-mixed", 80, [&](Rng &r) {
        int n = r.range(1, 6); T::Rough p = T::Rough::make(r, n); gp = &p; Sample q = mk(r, n); double eps = r.logu(1e-8, 1e-3); H::describe(nm, " dim=", n, " t=", q.t, " dt=", q.dt, " eps=", eps); H::nontrivial(); auto s = mkc(eps); vec x = q.x; double t = q.t, dt = q.dt; std::string hist; int K = r.range(3, 25);
        for (int k = 0; k < K; ++k) {
            vec d(n), o(n, NAN), dn(n, NAN), ref(n, NAN), rd(n); p.rhs<double>(x, d, t); double rt = t, rdt = dt; bool rok; { auto f = mkc(eps); rok = f.try_step(Fun(), x, rt, ref, rdt) == ode::success; } int w = r.range(0, 7); hist += char('a' + w); double t1 = t, dt1 = dt; bool ok, der = false;
            switch (w) {
            case 0: o = x; ok = s.try_step(Fun(), o, t1, dt1) == ode::success; break;
            case 1: ok = s.try_step(Fun(), x, t1, o, dt1) == ode::success; break;
            case 2: case 3: ok = ctl_deriv<int>(s, w, x, d, t1, o, dn, dt1, FS()) == ode::success; der = Fsal; break;
            case 7: { auto c(s); s = c; o = x; ok = s.try_step(Fun(), o, t1, dt1) == ode::success; break; }
            default: ctl_special(s, w, x, d, t, FS()); o = x; ok = s.try_step(Fun(), o, t1, dt1) == ode::success; }
            HCHECK(ok == rok && t1 == rt && std::fabs(dt1 - rdt) <= 1e-7 * std::fabs(rdt), "mixed-attempts", "sequence of forms ", hist, ": accepted ", ok, " t=", t1, " dt=", dt1, ", a fresh stepper: ", rok, " ", rt, " ", rdt);
            if (ok && rok) { double df = T::diff(o, ref, n); HCHECK(df <= 1e-12 * (1 + T::maxabs(ref)), "mixed-attempts", "sequence of forms ", hist, ": step differs from that of a fresh stepper by ", df); p.rhs<double>(ref, rd, rt); if (der) HCHECK(T::diff(dn, rd, n) <= 1e-9 * (1 + T::maxabs(rd)), "mixed-attempts-derivative", "sequence ", hist); x = ref; t = rt; H::count("mixed-steps"); } else { if (w != 1 && w != 3) HCHECK(T::diff(o, x, n) == 0, "rejected-state", "sequence ", hist); if (w == 2) HCHECK(dn == d, "rejected-derivative", "sequence ", hist); H::count("mixed-rejections"); }
            dt = rdt; if (std::fabs(dt) > 2) dt = q.dt; if (r.coin(0.2)) dt *= r.uni(1, 8); if (!(T::maxabs(x) < 1e6)) break; } });
}
#endif
#define EXPL(nm, ...) explicit_forms<__VA_ARGS__>(nm, [] { return __VA_ARGS__(); }, false, true)
int main(int c, char **v) {
    H::init(c, v, "forms");
#if PART == 0
    EXPL("euler", ode::euler<vec>); EXPL("rk4", ode::runge_kutta4<vec>); EXPL("rk4-classic", ode::runge_kutta4_classic<vec>); EXPL("ck54", ode::runge_kutta_cash_karp54<vec>); EXPL("ck54-classic", ode::runge_kutta_cash_karp54_classic<vec>); EXPL("rkf78", ode::runge_kutta_fehlberg78<vec>); EXPL("midpoint", ode::modified_midpoint<vec>); EXPL("extrapolation", ode::extrapolation_stepper<6, vec>);
    fsal_mixed<ode::runge_kutta_dopri5<vec>>("dopri5");
    explicit_forms<ode::runge_kutta_dopri5<vec>>("dopri5", [] { return ode::runge_kutta_dopri5<vec>(); }, true, false);
    err_forms<ode::runge_kutta_cash_karp54<vec>>("ck54", false); err_forms<ode::runge_kutta_cash_karp54_classic<vec>>("ck54-classic", false); err_forms<ode::runge_kutta_fehlberg78<vec>>("rkf78", false); err_forms<ode::runge_kutta_dopri5<vec>>("dopri5", true); err_forms<ode::extrapolation_stepper<6, vec>>("extrapolation", false);
#else
    controlled("c-ck54", [] { return ode::make_controlled(1e-5, 1e-5, ode::runge_kutta_cash_karp54<vec>()); }); controlled("c-dopri5", [] { return ode::make_controlled(1e-5, 1e-5, ode::runge_kutta_dopri5<vec>()); }); controlled("c-rkf78", [] { return ode::make_controlled(1e-8, 1e-8, ode::runge_kutta_fehlberg78<vec>()); }); controlled("bs", [] { return ode::bulirsch_stoer<vec>(1e-8, 1e-8, 1, 1); });
    controlled_mixed<true>("c-dopri5", [](double e) { return ode::make_controlled(e, e, ode::runge_kutta_dopri5<vec>()); }); controlled_mixed<false>("c-ck54", [](double e) { return ode::make_controlled(e, e, ode::runge_kutta_cash_karp54<vec>()); });
    sympl<ode::symplectic_euler<vec>>("symplectic-euler"); sympl<ode::symplectic_rkn_sb3a_mclachlan<vec>>("sb3a"); sympl<ode::symplectic_rkn_sb3a_m4_mclachlan<vec>>("sb3a-m4");
    multi<ode::adams_bashforth<3, vec>>("ab3"); multi<ode::adams_bashforth_moulton<3, vec>>("abm3"); multi<ode::adaptive_adams_bashforth_moulton<3, vec>, false>("aabm3");
    H::group("rosenbrock4-forms", 60, [&](Rng &r) { int n = r.range(1, 4); T::Prob p = T::Prob::make(r, n); double t = r.uni(-5, 5), dt = r.sign() * r.logu(1e-3, 0.5); T::Log l; auto sy = SysI::system(p, l); uvec x0 = SysI::make(p.exact(t)); H::describe("rosenbrock4 dim=", n, " t=", t, " dt=", dt); H::nontrivial(); auto V = [](const uvec &u) { return vec(u.begin(), u.end()); }; uvec ref = x0; { ode::rosenbrock4<double> s; s.do_step(sy, ref, t, dt); }
        ode::rosenbrock4<double> s; uvec x = x0; s.do_step(std::ref(sy), x, t, dt); same("std-ref", V(x), V(ref)); x = x0; s.do_step(boost::ref(sy), x, t, dt); same("boost-ref", V(x), V(ref)); x = x0; auto sr = std::make_pair(std::ref(sy.first), std::ref(sy.second)); s.do_step(sr, x, t, dt); same("pair-of-refs", V(x), V(ref)); uvec o(n), e(n), e2(n); for (int i = 0; i < n; ++i) o[i] = e[i] = e2[i] = NAN; s.do_step(sy, x0, t, o, dt); same("out-of-place", V(o), V(ref)); for (int i = 0; i < n; ++i) o[i] = NAN; uvec xc = x0; s.do_step(sy, x0, t, o, dt, e); same("with-error", V(o), V(ref)); HCHECK(V(xc) == V(x0), "input-modified", ""); x = x0; s.do_step(sy, x, t, dt, e2); same("with-error-in-place", V(x), V(ref)); same("error", V(e), V(e2)); x = x0; s.do_step(sy, x, t, x, dt); same("output-is-input", V(x), V(ref)); });
    H::group("implicit-euler-forms", 40, [&](Rng &r) { int n = r.range(1, 4); T::Prob p = T::Prob::make(r, n); double t = r.uni(-5, 5), dt = r.logu(1e-3, 0.3); T::Log l; uvec x0 = SysI::make(p.exact(t)); H::describe("implicit-euler dim=", n, " t=", t, " dt=", dt); H::nontrivial(); struct J { const T::Prob *p; void operator()(const uvec &x, umat &m, double tt) const { uvec d(x.size()); p->jac<double>(x, m, tt, d); } }; auto sy = std::make_pair(T::Sys(p, l), J{&p}); uvec ref = x0; auto V = [](const uvec &u) { return vec(u.begin(), u.end()); }; { ode::implicit_euler<double> s; s.do_step(sy, ref, t, dt); } ode::implicit_euler<double> s; uvec x = x0; s.do_step(std::ref(sy), x, t, dt); same("std-ref", V(x), V(ref)); x = x0; s.do_step(boost::ref(sy), x, t, dt); same("boost-ref", V(x), V(ref)); x = x0; auto sr = std::make_pair(boost::ref(sy.first), boost::ref(sy.second)); s.do_step(sr, x, t, dt); same("pair-of-refs", V(x), V(ref)); });
#endif
    return H::finish();
}
