// Uniform handles ("actors") of all stepper families: start a history, perform one random operation, copy, assign, reset, resize.
// Used by the monitors of C17 (copies), C18 (resizing), C21 (threads), C22 (exceptions).
#ifndef VERIF_ACT_HPP
#define VERIF_ACT_HPP
#include "zoo.hpp"
#include <boost/numeric/odeint/stepper/adams_moulton.hpp>
#include <boost/numeric/odeint/stepper/explicit_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/explicit_error_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
namespace A {
using namespace Z; using H::Rng;
// ---- allocation monitor: live blocks, injected failures ----
struct Mem { long live = 0, count = 0, throw_at = -1; };
inline Mem &mem() { static thread_local Mem m; return m; }
struct AllocErr { long id; };
template <class V> struct Track { typedef V value_type; Track() {} template <class U> Track(const Track<U> &) {}
    V *allocate(size_t n) { Mem &m = mem(); if (++m.count == m.throw_at) throw AllocErr{m.count}; V *p = static_cast<V *>(::operator new(n * sizeof(V))); m.live++; return p; }
    void deallocate(V *p, size_t) { mem().live--; ::operator delete(p); }
#if defined(A_UNINIT) // elements made by resize stay uninitialised, memcheck watches their use
    template <class U> void construct(U *p) { ::new (static_cast<void *>(p)) U; }
    template <class U, class... R> void construct(U *p, R &&...r) { ::new (static_cast<void *>(p)) U(std::forward<R>(r)...); }
#elif defined(A_POISON) // elements made by resize are NaN or arbitrary numbers, each time others: whoever uses one before writing it shows it in the result
    template <class U> void construct(U *p) { static thread_local uint64_t k = 0; uint64_t z = H::mix(++k); ::new (static_cast<void *>(p)) U(z % 8 < 3 ? std::numeric_limits<U>::quiet_NaN() : ((z >> 8) % 2 ? 1 : -1) * std::ldexp(1.0 + ((z >> 16) % 1024) / 1024.0, int((z >> 32) % 40) - 25)); }
    template <class U, class... R> void construct(U *p, R &&...r) { ::new (static_cast<void *>(p)) U(std::forward<R>(r)...); }
#endif
};
template <class V, class U> bool operator==(const Track<V> &, const Track<U> &) { return true; }
template <class V, class U> bool operator!=(const Track<V> &, const Track<U> &) { return false; }
typedef std::vector<double, Track<double>> tvec;
#ifndef A_STATE
#define A_STATE A::tvec
#endif
#ifndef A_RZ
#define A_RZ ode::initially_resizer
#endif
typedef std::vector<double> Tr; // trace of one operation
struct Prb { T::Prob p; vec x0; double t0, h; static Prb make(Rng &r, int n, double hlo = 1e-3, double hhi = 0.4) { Prb q; q.p = T::Prob::make(r, n, 2.5, 0.5); q.t0 = r.coin(0.2) ? 0 : r.uni(-9, 9); q.h = r.logu(hlo, hhi) * r.sign(); q.x0 = q.p.exact(q.t0); if (r.coin(0.7)) for (auto &v : q.x0) v += r.uni(-1, 1); return q; } };
struct Actor {
    virtual ~Actor() {}
    virtual void start(const Prb &q, T::Log &l) = 0;                 // (re)sets state, time, step and system, not the stepper (dense output: initialize)
    virtual void op(Rng &r, Tr &t) = 0;                              // one step / attempt
    virtual std::unique_ptr<Actor> clone() const = 0;                // copies stepper and run
    virtual bool assign(const Actor &) = 0;                          // assigns stepper and run; false: not assignable
    virtual bool assignable() const = 0;
    virtual bool reset() = 0;                                        // forget the history if the stepper can; false if there is no reset()
    virtual bool init() { return false; }                            // initialize(system, ...) of FSAL and multistep steppers
    virtual bool adjust(int n) = 0;                                  // adjust_size with a state of dimension n
    virtual void move_to(Rng &r, Actor &to, Tr &a, Tr &b) {}
    virtual std::vector<double> state() const = 0; virtual double time() const = 0; virtual double step() const = 0; virtual void state(const std::vector<double> &) = 0; virtual void time(double t, double h) = 0;
    virtual bool in_place_only(bool) { return false; }
    bool oop_only = false;
};
template <class S> auto reset_(S &s, int) -> decltype(s.reset(), true) { s.reset(); return true; }
template <class S> bool reset_(S &, long) { return false; }
template <class S, class X> auto adjust_(S &s, const X &x, int) -> decltype(s.adjust_size(x), true) { s.adjust_size(x); return true; }
template <class S, class X> bool adjust_(S &, const X &, long) { return false; }
template <class S> bool assign_(S &a, const S &b, std::true_type) { a = b; return true; }
template <class S> bool assign_(S &, const S &, std::false_type) { return false; }
struct P0 {}; struct P1 : P0 {}; struct P2 : P1 {};
template <class S, class Y, class X> auto init_(S &s, Y sy, X &x, double &t, double h, P2) -> decltype(s.initialize(sy, x, t, h), true) { s.initialize(sy, x, t, h); return true; }
template <class S, class Y, class X> auto init_(S &s, Y sy, X &x, double &t, double h, P1) -> decltype(s.initialize(sy, x, t), true) { s.initialize(sy, x, t); return true; }
template <class S, class Y, class X> bool init_(S &, Y, X &, double &, double, P0) { return false; }
template <class X> struct Mk { static X make(const vec &v) { return X(v.begin(), v.end()); } };
template <> struct Mk<uvec> { static uvec make(const vec &v) { return SysI::make(v); } };
template <size_t N> struct Mk<std::array<double, N>> { static std::array<double, N> make(const vec &v) { std::array<double, N> x; std::copy(v.begin(), v.begin() + N, x.begin()); return x; } };
template <class X> vec tovec(const X &x) { return vec(x.begin(), x.end()); }
// system tags
template <class X> struct TE { typedef X state; typedef T::Sys sys; static sys make(const T::Prob &p, T::Log &l) { return sys(p, l); } };
struct TI { typedef uvec state; typedef std::pair<T::Sys, Jac> sys; static sys make(const T::Prob &p, T::Log &l) { return sys(T::Sys(p, l), Jac{&p}); } };
struct IJ { const T::Prob *p; void operator()(const uvec &x, umat &m, double t) const { uvec d(x.size()); p->jac<double>(x, m, t, d); } };
struct TM { typedef uvec state; typedef std::pair<T::Sys, IJ> sys; static sys make(const T::Prob &p, T::Log &l) { return sys(T::Sys(p, l), IJ{&p}); } };
template <class D, class Tag, class S> struct Base : Actor {
    typedef typename Tag::state X; S s; Prb q; T::Log *l = nullptr; X x; double t = 0, h = 0;
    explicit Base(const S &s_) : s(s_), x(Mk<X>::make(vec(16, 0.0))) {}
    typename Tag::sys sys() { return Tag::make(q.p, *l); }
    void start(const Prb &p, T::Log &lg) override { q = p; l = &lg; x = Mk<X>::make(q.x0); t = q.t0; h = q.h; }
    std::unique_ptr<Actor> clone() const override { return std::unique_ptr<Actor>(new D(static_cast<const D &>(*this))); }
    bool assignable() const override { return std::is_copy_assignable<S>::value; }
    bool assign(const Actor &o) override { const D &d = dynamic_cast<const D &>(o); if (!assign_(s, d.s, std::is_copy_assignable<S>())) return false; if (&d != this) { q = d.q; l = d.l; x = d.x; t = d.t; h = d.h; oop_only = d.oop_only; } return true; }
    bool reset() override { return reset_(s, 0); }
    bool init() override { return init_(s, sys(), x, t, h, P2()); }
    bool adjust(int n) override { return adjust_(s, Mk<X>::make(vec(n, 0.5)), 0); }
    vec state() const override { return tovec(x); } double time() const override { return t; } double step() const override { return h; }
    void state(const vec &v) override { x = Mk<X>::make(v); } void time(double a, double b) override { t = a; h = b; }
    void put(Tr &r, const X &y) { for (double v : y) r.push_back(v); }
};
template <class S, class X> auto oop_(S &s, X sy, std::true_type) { return 0; }
enum Form { IN = 1, OUT = 2, ERR = 4 };
// F: forms the stepper has
template <class Tag, class S, int F> struct Plain : Base<Plain<Tag, S, F>, Tag, S> { typedef Base<Plain<Tag, S, F>, Tag, S> B; using B::B; typedef typename Tag::state X;
    template <int G> typename std::enable_if<(G & ERR) != 0>::type err(Tr &r) { X e = this->x; this->s.do_step(this->sys(), this->x, this->t, this->h, e); this->put(r, e); }
    template <int G> typename std::enable_if<(G & ERR) == 0>::type err(Tr &) { this->s.do_step(this->sys(), this->x, this->t, this->h); }
    template <int G> typename std::enable_if<(G & OUT) != 0>::type out() { X o = this->x, in = this->x; this->s.do_step(this->sys(), this->x, this->t, o, this->h); HCHECK(tovec(in) == tovec(this->x), "input-changed", "out-of-place step changed its input"); this->x = o; }
    template <int G> typename std::enable_if<(G & OUT) == 0>::type out() { this->s.do_step(this->sys(), this->x, this->t, this->h); }
    void op(Rng &g, Tr &r) override { double u = g.u01(); if (this->oop_only || u < 0.3) out<F>(); else if (u < 0.5) err<F>(r); else this->s.do_step(this->sys(), this->x, this->t, this->h); this->t += this->h; this->put(r, this->x); } };
template <class Tag, class S> struct Ctrl : Base<Ctrl<Tag, S>, Tag, S> { typedef Base<Ctrl<Tag, S>, Tag, S> B; using B::B; typedef typename Tag::state X;
    void op(Rng &g, Tr &r) override { bool ok; if (this->oop_only || g.coin(0.3)) { X o = this->x, in = this->x; ok = this->s.try_step(this->sys(), this->x, this->t, o, this->h) == ode::success; HCHECK(tovec(in) == tovec(this->x), "input-changed", "out-of-place attempt changed its input"); if (ok) this->x = o; } else ok = this->s.try_step(this->sys(), this->x, this->t, this->h) == ode::success; H::count(ok ? "accepted" : "rejected"); r.push_back(ok); r.push_back(this->t); r.push_back(this->h); this->put(r, this->x); if (std::fabs(this->h) > 3) this->h = this->h > 0 ? 3 : -3; } };
template <class Tag, class S> struct Dense : Base<Dense<Tag, S>, Tag, S> { typedef Base<Dense<Tag, S>, Tag, S> B; using B::B; typedef typename Tag::state X;
    void start(const Prb &p, T::Log &lg) override { B::start(p, lg); this->s.initialize(this->x, this->t, this->h); }
    bool reset() override { return true; } // start() re-initialises
    void op(Rng &g, Tr &r) override { auto pr = this->s.do_step(this->sys()); r.push_back(pr.first); r.push_back(pr.second); r.push_back(this->s.current_time_step()); this->put(r, this->s.current_state()); for (int k = g.range(0, 2); k > 0; --k) { X o = this->x; this->s.calc_state(pr.first + g.u01() * (pr.second - pr.first), o); this->put(r, o); } this->x = this->s.current_state(); this->t = this->s.current_time(); this->h = this->s.current_time_step(); if (g.coin(0.1) || std::fabs(this->h) > 3) { this->h = g.logu(0.01, 0.3) * (this->h > 0 ? 1 : -1); X y = this->x; this->s.initialize(y, this->t, this->h); } } };
// separable systems
struct Cnt { T::Log *l; void operator()() const { if (++l->calls > l->budget) throw H::Budget(); if (l->calls == l->throw_at) throw T::UserErr{int(l->calls)}; } };
struct SF { Cnt c; template <class X> void operator()(const X &p, X &d) const { c(); for (size_t i = 0; i < p.size(); ++i) d[i] = p[i] + 0.3 * std::sin(p[i]); } };
struct SG { Cnt c; template <class X> void operator()(const X &q, X &d) const { c(); for (size_t i = 0; i < q.size(); ++i) d[i] = -(std::sin(q[i]) + 0.2 * q[(i + 1) % q.size()]); } };
struct SV { Cnt c; template <class X> void operator()(const X &q, const X &v, X &d, double t) const { c(); for (size_t i = 0; i < q.size(); ++i) d[i] = -std::sin(q[i]) - 0.1 * v[i] + 0.1 * std::cos(t); } };
template <class X, class S, bool V> struct Sym : Actor { S s; Prb pq; T::Log *l = nullptr; std::pair<X, X> x; double t = 0, h = 0; explicit Sym(const S &a) : s(a), x(Mk<X>::make(vec(16, 0.0)), Mk<X>::make(vec(16, 0.0))) {}
    void start(const Prb &p, T::Log &lg) override { pq = p; l = &lg; t = p.t0; h = p.h; x.first = Mk<X>::make(p.x0); vec v = p.x0; for (size_t i = 0; i < v.size(); ++i) v[i] = 0.5 * v[i] + 0.2 * p.p.b[i]; x.second = Mk<X>::make(v); }
    void go(S &st, std::true_type) { st.do_step(SV{{l}}, x, t, h); }
    void go(S &st, std::false_type) { st.do_step(std::make_pair(SF{{l}}, SG{{l}}), x, t, h); }
    void goo(S &, std::pair<X, X> &, std::true_type) { go(s, std::true_type()); }
    void goo(S &st, std::pair<X, X> &o, std::false_type) { st.do_step(std::make_pair(SF{{l}}, SG{{l}}), x, t, o, h); x = o; }
    void op(Rng &g, Tr &r) override { typedef std::integral_constant<bool, V> I; if (oop_only || g.coin(0.3)) { auto o = x; goo(s, o, I()); } else go(s, I()); t += h; for (double v : x.first) r.push_back(v); for (double v : x.second) r.push_back(v); }
    std::unique_ptr<Actor> clone() const override { return std::unique_ptr<Actor>(new Sym(*this)); } bool assignable() const override { return std::is_copy_assignable<S>::value; }
    bool assign(const Actor &o) override { const Sym &d = dynamic_cast<const Sym &>(o); if (!assign_(s, d.s, std::is_copy_assignable<S>())) return false; if (&d != this) { pq = d.pq; l = d.l; x = d.x; t = d.t; h = d.h; } return true; }
    bool ini(std::true_type) { s.initialize(SV{{l}}, x.first, x.second, t); return true; } bool ini(std::false_type) { return false; } bool init() override { return ini(std::integral_constant<bool, V>()); }
    bool reset() override { return reset_(s, 0); } bool adjust(int n) override { return adjust_(s, Mk<X>::make(vec(n, 0.5)), 0); }
    vec state() const override { vec v = tovec(x.first), w = tovec(x.second); v.insert(v.end(), w.begin(), w.end()); return v; } double time() const override { return t; } double step() const override { return h; }
    void state(const vec &v) override { x.first = Mk<X>::make(vec(v.begin(), v.begin() + v.size() / 2)); x.second = Mk<X>::make(vec(v.begin() + v.size() / 2, v.end())); } void time(double a, double b) override { t = a; h = b; }
};
struct Kd { const char *name; std::function<std::unique_ptr<Actor>()> make; int flags; };
// flags: HIST keeps a history between steps that start() does not renew; NORESET: has history but no way to forget it; CTL controlled; DNS dense; IMP: ublas states, fixed
enum { HIST = 1, NORESET = 2, CTL = 4, DNS = 8, IMP = 16, MULTI = 32, SYMP = 64 };
typedef A_STATE X0;
#define A_T X0, double, X0, double
typedef ode::range_algebra RA; typedef ode::default_operations DO; typedef typename ode::algebra_dispatcher<X0>::algebra_type AL;
#define A_RK(nm) ode::nm<A_T, A::AL, A::DO, A_RZ>
#define A_K(nm, k) ode::nm<k, A_T, A::AL, A::DO, A_RZ>
template <class Ac, class S> Kd mk(const char *n, S s, int fl = 0) { return Kd{n, [s] { return std::unique_ptr<Actor>(new Ac(s)); }, fl}; }
template <int F, class S> Kd pl(const char *n, S s, int fl = 0) { return mk<Plain<TE<X0>, S, F>>(n, s, fl); }
template <class S> Kd ct(const char *n, S s, int fl = 0) { return mk<Ctrl<TE<X0>, S>>(n, s, fl | CTL); }
template <class S> Kd dn(const char *n, S s, int fl = 0) { return mk<Dense<TE<X0>, S>>(n, s, fl | DNS | HIST); }
template <class S> struct CRK { typedef ode::controlled_runge_kutta<S, ode::default_error_checker<double, AL, DO>, ode::default_step_adjuster<double, double>, A_RZ> type; static type make(double a, double b, const S &s = S()) { return type(ode::default_error_checker<double, AL, DO>(a, b), ode::default_step_adjuster<double, double>(), s); } };
template <class AB> struct CAB { typedef ode::detail::pid_step_adjuster<X0, double, X0, double, AL, DO, ode::detail::H211PI> SA; typedef ode::controlled_adams_bashforth_moulton<AB, SA, ode::default_order_adjuster<AB::order_value, X0, double, AL>, A_RZ> type; static type make(double a, double b) { return type(SA(a, b)); } };
// generic Runge-Kutta steppers: Kutta's third order method with an embedded Euler step
template <class S> S gen3() { typename S::coef_b_type b, b2; typename S::coef_c_type c; b[0] = 1. / 6; b[1] = 2. / 3; b[2] = 1. / 6; c[0] = 0; c[1] = 0.5; c[2] = 1; boost::array<double, 1> a1; a1[0] = 0.5; boost::array<double, 2> a2; a2[0] = -1; a2[1] = 2; return S(typename S::coef_a_type(a1, a2), b, c); }
template <class S> S gen3e() { typename S::coef_b_type b, b2; typename S::coef_c_type c; b[0] = 1. / 6; b[1] = 2. / 3; b[2] = 1. / 6; b2[0] = 1. / 6 - 1; b2[1] = 2. / 3; b2[2] = 1. / 6; c[0] = 0; c[1] = 0.5; c[2] = 1; boost::array<double, 1> a1; a1[0] = 0.5; boost::array<double, 2> a2; a2[0] = -1; a2[1] = 2; return S(typename S::coef_a_type(a1, a2), b, b2, c); }
inline std::vector<Kd> kinds(int part) { std::vector<Kd> k;
    if (part == 0) {
#if !defined(A_PART) || A_PART == 0
        k.push_back(pl<IN | OUT>("euler", A_RK(euler)())); k.push_back(pl<IN | OUT>("rk4", A_RK(runge_kutta4)())); k.push_back(pl<IN | OUT>("rk4-classic", A_RK(runge_kutta4_classic)()));
        k.push_back(pl<IN | OUT | ERR>("ck54", A_RK(runge_kutta_cash_karp54)())); k.push_back(pl<IN | OUT | ERR>("ck54-classic", A_RK(runge_kutta_cash_karp54_classic)())); k.push_back(pl<IN | OUT | ERR>("dopri5", A_RK(runge_kutta_dopri5)(), HIST)); k.push_back(pl<IN | OUT | ERR>("rkf78", A_RK(runge_kutta_fehlberg78)()));
        k.push_back(pl<IN | OUT>("midpoint", A_RK(modified_midpoint)(4))); k.push_back(pl<IN | OUT | ERR>("extrapolation6", A_K(extrapolation_stepper, 6)()));
        k.push_back(pl<IN | OUT>("generic3", gen3<ode::explicit_generic_rk<3, 3, A_T, A::AL, A::DO, A_RZ>>())); k.push_back(pl<IN | OUT | ERR>("generic-error3", gen3e<ode::explicit_error_generic_rk<3, 3, 3, 2, A_T, A::AL, A::DO, A_RZ>>())); k.push_back(pl<IN | OUT | ERR>("extrapolation4", A_K(extrapolation_stepper, 4)()));
        typedef ode::symplectic_rkn_sb3a_mclachlan<X0, X0, double, X0, X0, double, AL, DO, A_RZ> SM; k.push_back(mk<Sym<X0, SM, false>>("sb3a", SM(), SYMP));
        typedef ode::symplectic_euler<X0, X0, double, X0, X0, double, AL, DO, A_RZ> SE; typedef ode::symplectic_rkn_sb3a_m4_mclachlan<X0, X0, double, X0, X0, double, AL, DO, A_RZ> SB; typedef ode::velocity_verlet<X0, X0, double, X0, double, double, AL, DO, A_RZ> VV;
        k.push_back(mk<Sym<X0, SE, false>>("symplectic-euler", SE(), SYMP)); k.push_back(mk<Sym<X0, SB, false>>("sb3a-m4", SB(), SYMP)); k.push_back(mk<Sym<X0, VV, true>>("velocity-verlet", VV(), SYMP | HIST));
#endif
    } else if (part == 1) {
#if !defined(A_PART) || A_PART == 1
        k.push_back(pl<IN | OUT>("ab1", A_K(adams_bashforth, 1)(), HIST | MULTI)); k.push_back(pl<IN | OUT>("ab4", A_K(adams_bashforth, 4)(), HIST | MULTI)); k.push_back(pl<IN | OUT>("ab8", A_K(adams_bashforth, 8)(), HIST | MULTI));
        k.push_back(pl<IN | OUT>("abm3", A_K(adams_bashforth_moulton, 3)(), HIST | MULTI)); k.push_back(pl<IN | OUT>("abm6", A_K(adams_bashforth_moulton, 6)(), HIST | MULTI));
        k.push_back(pl<IN | OUT | ERR>("adaptive-abm4", A_K(adaptive_adams_bashforth_moulton, 4)(), HIST | MULTI));
        k.push_back(ct("controlled-abm3", CAB<A_K(adaptive_adams_bashforth_moulton, 3)>::make(1e-6, 1e-6), HIST | MULTI)); k.push_back(ct("controlled-abm5", CAB<A_K(adaptive_adams_bashforth_moulton, 5)>::make(1e-6, 1e-6), HIST | MULTI));
#endif
    } else if (part == 2) {
#if !defined(A_PART) || A_PART == 2
        k.push_back(ct("controlled-ck54", CRK<A_RK(runge_kutta_cash_karp54)>::make(1e-6, 1e-6))); k.push_back(ct("controlled-dopri5", CRK<A_RK(runge_kutta_dopri5)>::make(1e-6, 1e-6), HIST)); k.push_back(ct("controlled-rkf78", CRK<A_RK(runge_kutta_fehlberg78)>::make(1e-6, 1e-6)));
        k.push_back(ct("controlled-extrapolation4", CRK<A_K(extrapolation_stepper, 4)>::make(1e-6, 1e-6))); typedef ode::explicit_error_generic_rk<3, 3, 3, 2, A_T, A::AL, A::DO, A_RZ> GE; k.push_back(ct("controlled-generic-error3", CRK<GE>::make(1e-5, 1e-5, gen3e<GE>()))); k.push_back(ct("controlled-ck54-classic", CRK<A_RK(runge_kutta_cash_karp54_classic)>::make(1e-6, 1e-6)));
        k.push_back(ct("bulirsch-stoer", A_RK(bulirsch_stoer)(1e-6, 1e-6, 1, 1), HIST));
        k.push_back(dn("dense-euler", ode::dense_output_runge_kutta<A_RK(euler)>())); typedef CRK<A_RK(runge_kutta_dopri5)> CD; k.push_back(dn("dense-dopri5", ode::dense_output_runge_kutta<CD::type>(CD::make(1e-6, 1e-6)))); k.push_back(dn("dense-bs", A_RK(bulirsch_stoer_dense_out)(1e-6, 1e-6, 1, 1))); k.push_back(dn("dense-bs-interpolation", A_RK(bulirsch_stoer_dense_out)(1e-6, 1e-6, 1, 0, 0.0, true)));
#endif
    } else if (part == 3) {
#if !defined(A_PART) || A_PART == 3
        typedef ode::rosenbrock4<double, ode::default_rosenbrock_coefficients<double>, A_RZ> R; typedef ode::rosenbrock4_controller<R> RC; typedef ode::rosenbrock4_dense_output<RC> RD; typedef ode::implicit_euler<double, A_RZ> IE;
        k.push_back(mk<Plain<TI, R, IN | OUT | ERR>>("rosenbrock4", R(), IMP)); k.push_back(mk<Ctrl<TI, RC>>("controlled-rosenbrock4", RC(1e-6, 1e-6), IMP | CTL | HIST | NORESET)); k.push_back(mk<Dense<TI, RD>>("dense-rosenbrock4", RD(RC(1e-6, 1e-6)), IMP | DNS | HIST | NORESET)); k.push_back(mk<Plain<TM, IE, IN>>("implicit-euler", IE(), IMP));
#endif
    }
    return k; }
inline bool same(const Tr &a, const Tr &b, double tol, std::string &why) { double big = 1; if (a.size() != b.size()) { why = H::cat("trace lengths ", a.size(), " and ", b.size()); return false; } for (size_t i = 0; i < a.size(); ++i) { big = std::max(big, std::fabs(a[i])); double d = a[i] == b[i] ? 0 : std::fabs(a[i] - b[i]); if (std::isnan(a[i]) && std::isnan(b[i])) d = 0; if (!(d <= tol * big)) { why = H::cat("entry ", i, ": expected ", a[i], " got ", b[i]); return false; } H::maxi("deviation", d / big); } H::count("compared-values", long(a.size())); return true; }
} // namespace A
#endif
