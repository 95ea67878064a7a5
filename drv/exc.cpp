// C22: exceptions thrown by the system function or by allocations of state containers at every point of single operations of all steppers:
// identity of the exception, leaks, inputs, time and step, and the retry against the undisturbed run.  PART = group of steppers
#define A_PART PART
#ifdef A_ALWAYS
#define A_RZ ode::always_resizer
#endif
#include "act.hpp"
using namespace A;
#ifdef A_ALWAYS
enum { ALWAYS = 1 };
#else
enum { ALWAYS = 0 };
#endif
static const double TOL = 1e-10;
static std::string vs(const vec &v) { std::ostringstream o; o.precision(17); for (double d : v) o << d << " "; return o.str(); }
static void one(const Kd &k) {
    H::group(k.name, 150, [&](Rng &r) {
        long live0 = mem().live; { T::Log l; bool alloc = r.coin(0.35) && !(k.flags & IMP); int n = r.range(1, 5), m = ALWAYS && !(k.flags & NORESET) && r.coin(0.5) ? r.range(1, 7) : n; Prb p = Prb::make(r, n), q = Prb::make(r, m); uint64_t sd = r.u64(); int at = r.range(0, 7), more = r.range(1, 6); bool oop = r.coin(0.4); double pos = r.u01();
        H::describe(k.name, " n=", n, " n2=", m, " h=", p.h, " fail in op ", at, alloc ? " allocation" : " evaluation", " oop=", oop, " pos=", pos);
        auto go = [&](Actor &a, int i, Tr &t) { Rng g(H::mix(sd + 77 * i)); a.op(g, t); };
        // history: `at` operations with problem p, then (m != n or a restart) problem q or the same run goes on
        bool sw = m != n || r.coin(0.2); int before = alloc && r.coin(0.5) ? 0 : at;
        auto prep = [&](Actor &a) { a.oop_only = oop; a.start(p, l); Tr t; for (int i = 0; i < before; ++i) go(a, i, t); if (sw) { if (k.flags & HIST) a.reset(); a.start(q, l); } };
        long ev, al; Tr undist; std::unique_ptr<Actor> z = k.make(); prep(*z); std::unique_ptr<Actor> ref = z->clone(); { auto y = z->clone(); long c0 = l.calls, a0 = mem().count; go(*y, before, undist); ev = l.calls - c0; al = mem().count - a0; }
        long total = alloc ? al : ev; if (total == 0) { H::count("nothing-to-fail"); return; } long j = 1 + std::min(total - 1, long(pos * total)); H::nontrivial();
        vec x0 = z->state(); double t0 = z->time(), h0 = z->step(); bool thrown = false; Tr t;
        std::unique_ptr<Actor> a = k.make(); prep(*a); // not a copy: the real first-use state of temporaries
        { auto y = k.make(); prep(*y); long c0 = l.calls, a0 = mem().count; Tr u; go(*y, before, u); total = alloc ? mem().count - a0 : l.calls - c0; if (total == 0) { H::count("nothing-to-fail"); return; } j = 1 + std::min(total - 1, long(pos * total)); std::string w; if (!same(undist, u, TOL, w)) { H::violation("copy-differs", w); throw H::Abort(); } }
        long live1 = mem().live; if (alloc) mem().throw_at = mem().count + j; else l.throw_at = l.calls + j;
        try { go(*a, before, t); }
        catch (const T::UserErr &e) { thrown = true; HREQUIRE(!alloc && e.id == l.throw_at, "exception-changed", "another exception arrived"); }
        catch (const AllocErr &e) { thrown = true; HREQUIRE(alloc && e.id == mem().throw_at, "exception-changed", "another exception arrived"); }
        mem().throw_at = -1; l.throw_at = -1;
        HREQUIRE(thrown, "exception-lost", "the exception thrown at ", alloc ? "allocation " : "evaluation ", j, " of ", total, " did not reach the caller"); H::count(alloc ? "allocation-failed" : "evaluation-failed");
        if ((oop && !(k.flags & DNS) && std::string(k.name) != "velocity-verlet") || (k.flags & CTL)) HREQUIRE(a->state() == x0, "input-changed", "state ", vs(x0), " became ", vs(a->state()));
        if (k.flags & CTL) HREQUIRE(a->time() == t0 && a->step() == h0, "time-or-step-changed", "t ", t0, " -> ", a->time(), ", dt ", h0, " -> ", a->step());
        // retry from the saved state
        int mode = r.range(0, 2); if (mode == 1 && (k.flags & IMP) == 0) { auto b = a->clone(); a = std::move(b); H::count("copied-after-exception"); } // a damaged object can be copied
        bool hist = (k.flags & HIST) && !(k.flags & NORESET); if (k.flags & DNS) hist = true;
        if (hist) { // forget the history, compare with a fresh stepper
            if ((k.flags & NORESET) || a->reset()) { auto f = k.make(); Prb s = sw ? q : p; s.x0 = x0; s.t0 = t0; s.h = h0; if (k.flags & SYMP) s = sw ? q : p; a->start(s, l); f->start(s, l); f->oop_only = a->oop_only; if (k.flags & NORESET) { Tr u; for (int i = 0; i < more; ++i) { go(*a, 100 + i, u); } for (double v : u) HREQUIRE(std::isfinite(v), "retry", "not finite"); }
                else for (int i = 0; i < more; ++i) { Tr u, v; go(*a, 100 + i, u); go(*f, 100 + i, v); std::string w; if (!same(v, u, TOL, w)) { H::violation("retry", H::cat("step ", i, " after exception and reset differs from a fresh stepper: ", w)); throw H::Abort(); } } }
        } else { a->state(x0); a->time(t0, h0); for (int i = 0; i < more; ++i) { Tr u, v; go(*ref, before + i, v); go(*a, before + i, u); std::string w; if (!same(v, u, TOL, w)) { H::violation("retry", H::cat("retried step ", i, " differs from the undisturbed one: ", w)); throw H::Abort(); } } }
        H::count("retried"); (void)live1;
        // copies and assignments interrupted by a failing allocation
        if (!(k.flags & IMP) && r.coin(0.5)) { auto f = k.make(); Tr u; prep(*f); go(*f, before, u); auto g = k.make(); if (r.coin()) { prep(*g); Tr w; go(*g, before, w); } auto cont = f->clone(); long c0 = mem().count; bool asg = f->assignable() && r.coin(); auto trial = k.make(); long c1; { c0 = mem().count; if (asg) g->clone()->assign(*f); else f->clone(); c1 = mem().count; }
            if (c1 > c0) { int tries = 0; bool th = false; mem().throw_at = mem().count + 1 + long(r.u01() * (c1 - c0)); try { if (asg) g->assign(*f); else f->clone(); } catch (const AllocErr &) { th = true; } mem().throw_at = -1; (void)tries; if (th) H::count(asg ? "assignment-interrupted" : "copy-interrupted"); Tr v1, v2; for (int i = 0; i < more; ++i) { go(*cont, before + 1 + i, v1); go(*f, before + 1 + i, v2); } std::string w; if (!same(v1, v2, TOL, w)) { H::violation("copy-disturbs", H::cat("the source of an interrupted copy continues differently: ", w)); throw H::Abort(); }
                if (asg) { auto h2 = k.make(); prep(*h2); g->assign(*h2); Tr w1, w2; auto h3 = h2->clone(); for (int i = 0; i < more; ++i) { go(*h3, before + i, w1); go(*g, before + i, w2); } if (!same(w1, w2, TOL, w)) { H::violation("assignment-target", H::cat("the target of an interrupted assignment cannot be assigned again: ", w)); throw H::Abort(); } } } }
        } HREQUIRE(mem().live == live0, "leak", mem().live - live0, " state containers are still allocated"); });
}
// an unused stepper whose very first evaluation fails has no history yet: the retry gives the undisturbed result without any reset
static void first(const Kd &k) {
    if (k.flags & DNS) return;
    H::group(std::string(k.name) + "-first", 30, [&](Rng &r) {
        T::Log l; Prb p = Prb::make(r, r.range(1, 5)); uint64_t sd = r.u64(); int more = r.range(1, 8), rep = r.range(1, 3); bool oop = r.coin(); H::describe(k.name, " first evaluation fails ", rep, " times, oop=", oop, " h=", p.h); H::nontrivial();
        std::unique_ptr<Actor> a = k.make(), f = k.make(); a->oop_only = f->oop_only = oop; a->start(p, l); f->start(p, l); vec x0 = a->state(); double t0 = a->time(), h0 = a->step();
        for (int i = 0; i < rep; ++i) { Rng g(H::mix(sd + i)); Tr t; bool thrown = false; l.throw_at = l.calls + 1; try { a->op(g, t); } catch (const T::UserErr &) { thrown = true; } l.throw_at = -1; if (!thrown) { H::count("nothing-to-fail"); return; } a->state(x0); a->time(t0, h0); }
        for (int i = 0; i < more; ++i) { Tr u, v; Rng g1(H::mix(sd + 77 * i)), g2(H::mix(sd + 77 * i)); a->op(g1, u); f->op(g2, v); std::string w; if (!same(v, u, TOL, w)) { H::violation("first-retry", H::cat("step ", i, " after a failed first evaluation differs from the undisturbed one: ", w)); throw H::Abort(); } }
        H::count("retried-first"); });
}
int main(int c, char **v) { H::init(c, v, "exc"); for (auto &k : kinds(PART)) { one(k); first(k); } return H::finish(); }
