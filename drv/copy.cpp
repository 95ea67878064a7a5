// C17: copies, assignments, self-assignments at random points of the history against the undisturbed run; by-value versus by-reference.
// PART = group of steppers
#define A_PART PART
#ifdef A_ALWAYS
#define A_RZ ode::always_resizer
#endif
#include <array>
#include "act.hpp"
#if PART == 4
#include <boost/numeric/odeint/external/gsl/gsl_wrapper.hpp>
#endif
using namespace A;
#ifdef A_ALWAYS
enum { RESIZES = 1 };
#else
enum { RESIZES = 0 };
#endif
static const double TOL = 1e-10;
#define EQ(a, b, key, what) do { std::string w_; if (!same(a, b, TOL, w_)) { H::violation(key, H::cat(what, ": ", w_)); throw H::Abort(); } } while (0)
typedef std::vector<Tr> Hist;
static int dim(Rng &r) {
#ifdef A_FIXED
    return A_FIXED;
#else
    return r.range(1, 6);
#endif
}
// performs ops [a,b) with the operation stream sd
static void ops(Actor &x, uint64_t sd, int a, int b, Hist *out) { for (int i = a; i < b; ++i) { Rng q(H::mix(sd + 77 * i)); Tr t; x.op(q, t); if (out) out->push_back(t); } }
static void cmp(const Hist &ref, int from, const Hist &got, const char *key) { for (size_t i = 0; i < got.size(); ++i) EQ(ref[from + i], got[i], key, H::cat("operation ", from + i, " of the run, ", i, " after the copy")); }
static void one(const Kd &k) {
    H::group(k.name, 60, [&](Rng &r) {
        T::Log l; Prb p = Prb::make(r, dim(r)); uint64_t sd = r.u64(); int n = r.range(4, 24), c = r.range(0, n - 1); int how = r.range(0, 5); bool fresh_target = r.coin(); uint64_t sd2 = r.u64(); int m = r.range(1, 12); Prb p2 = Prb::make(r, dim(r)), p3 = Prb::make(r, RESIZES ? dim(r) : p.p.n);
        H::describe(k.name, " dim=", p.p.n, " h=", p.h, " ops=", n, " copy after ", c, " how=", how, " target ran ", fresh_target ? 0 : m, " dim2=", p2.p.n); H::nontrivial();
        Hist ref; { auto a = k.make(); a->start(p, l); ops(*a, sd, 0, n, &ref); }
        auto a = k.make(); a->start(p, l); ops(*a, sd, 0, c, nullptr); std::unique_ptr<Actor> b;
        if (how <= 1 || !a->assignable()) { b = a->clone(); H::count("copy-constructed"); }
        else { b = k.make(); if (!fresh_target) { b->start(p2, l); ops(*b, sd2, 0, m, nullptr); } b->assign(*a); H::count(fresh_target ? "assigned-to-fresh" : "assigned-to-used"); }
        if (how == 5 && a->assignable()) { b->assign(*b); H::count("self-assigned"); }
        Hist ga, gb;
        if (how == 0 || how == 2) { a.reset(); ops(*b, sd, c, n, &gb); H::count("original-destroyed"); }                                    // original gone
        else if (how == 1 || how == 3) { for (int i = c; i < n; ++i) { ops(*a, sd, i, i + 1, &ga); ops(*b, sd, i, i + 1, &gb); } H::count("interleaved"); } // side by side
        else if (r.coin()) { a->reset(); a->start(p3, l); ops(*a, sd2, 0, m, nullptr); ops(*b, sd, c, n, &gb); H::count("original-reused"); }    // original does something else
        else { b->reset(); auto b2 = b->clone(); b2->start(p3, l); ops(*b2, sd2, 0, m, nullptr); b2.reset(); ops(*a, sd, c, n, &ga); H::count("copy-disturbed"); }
        cmp(ref, c, ga, "original-disturbed"); cmp(ref, c, gb, "copy-differs");
        // chains of copies: every operation on a new copy
        auto z = k.make(); z->start(p, l); Hist gz; for (int i = 0; i < n; ++i) { ops(*z, sd, i, i + 1, &gz); auto y = z->clone(); z.reset(); if (y->assignable() && r.coin()) { auto w = k.make(); w->assign(*y); y.reset(); z = std::move(w); } else z = std::move(y); } cmp(ref, 0, gz, "chain-of-copies");
        HCHECK(true, "", ""); });
}
#if PART == 4
struct Gv { gsl_vector *p; explicit Gv(const vec &v) : p(gsl_vector_alloc(v.size())) { for (size_t i = 0; i < v.size(); ++i) gsl_vector_set(p, i, v[i]); } Gv(const Gv &o) : Gv(o.get()) {} Gv &operator=(const Gv &o) { if (this != &o) { Gv t(o); std::swap(p, t.p); } return *this; } ~Gv() { gsl_vector_free(p); } vec get() const { vec v; for (size_t i = 0; i < p->size; ++i) v.push_back(gsl_vector_get(p, i)); return v; } };
struct GS { const T::Prob *p; T::Log *l; void operator()(const gsl_vector *x, gsl_vector *d, double t) const { vec a, b(p->n); for (int i = 0; i < p->n; ++i) a.push_back(gsl_vector_get(x, i)); p->rhs<double>(a, b, t); for (int i = 0; i < p->n; ++i) gsl_vector_set(d, i, b[i]); } };
template <class S> struct G : Actor { S s; Prb q; T::Log *l = nullptr; Gv x; double t = 0, h = 0; explicit G(const S &a) : s(a), x(vec(1, 0.0)) {}
    void start(const Prb &p, T::Log &lg) override { q = p; l = &lg; x = Gv(p.x0); t = p.t0; h = p.h; }
    void op(Rng &g, Tr &r) override { if (g.coin(0.3)) { Gv o(x.get()); s.do_step(GS{&q.p, l}, x.p, t, o.p, h); x = o; } else s.do_step(GS{&q.p, l}, x.p, t, h); t += h; for (double v : x.get()) r.push_back(v); }
    std::unique_ptr<Actor> clone() const override { return std::unique_ptr<Actor>(new G(*this)); } bool assignable() const override { return std::is_copy_assignable<S>::value; } bool assign(const Actor &o) override { const G &d = dynamic_cast<const G &>(o); s = d.s; if (&d != this) { q = d.q; l = d.l; x = d.x; t = d.t; h = d.h; } return true; }
    bool reset() override { return reset_(s, 0); } bool adjust(int) override { return false; } vec state() const override { return x.get(); } double time() const override { return t; } double step() const override { return h; } void state(const vec &v) override { x = Gv(v); } void time(double a, double b) override { t = a; h = b; } };
static std::vector<Kd> gkinds() { typedef gsl_vector *X; std::vector<Kd> k; k.push_back(mk<G<ode::runge_kutta4<X>>>("gsl-rk4", ode::runge_kutta4<X>())); k.push_back(mk<G<ode::runge_kutta_dopri5<X>>>("gsl-dopri5", ode::runge_kutta_dopri5<X>())); k.push_back(mk<G<ode::adams_bashforth<4, X>>>("gsl-ab4", ode::adams_bashforth<4, X>())); k.push_back(mk<G<ode::adams_bashforth_moulton<3, X>>>("gsl-abm3", ode::adams_bashforth_moulton<3, X>())); return k; }
#define kinds(p) gkinds()
#endif
int main(int c, char **v) { H::init(c, v, "copy"); for (auto &k : kinds(PART)) one(k); return H::finish(); }
