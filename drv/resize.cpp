// C18: sequences of system sizes, resizer policies, explicit size adjustment, resets and copies; every episode is compared with a fresh stepper,
// allocations of state containers are counted, memory is watched by the sanitizer.  PART = group of steppers, POLICY 0 always, 1 initially, 2 never
#define A_PART PART
#if POLICY == 0
#define A_RZ ode::always_resizer
#elif POLICY == 1
#define A_RZ ode::initially_resizer
#else
#define A_RZ ode::never_resizer
#endif
#include "act.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace A;
#if defined(__SANITIZE_ADDRESS__)
static size_t bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t bytes() { return 0; }
#endif
static void one(const Kd &k) {
    if (POLICY == 2) { auto a = k.make(); if (!a->adjust(3)) return; }
    bool warm = false;
    auto scenario = [&](Rng &r) {
        T::Log l; auto a = k.make(); int n = 0, eps = r.range(2, 7); std::ostringstream seq;
        for (int e = 0; e < eps; ++e) {
            bool ini = POLICY == 1 && e > 0, adj = POLICY == 2 || (ini && r.coin()); int m = r.coin(0.2) && n ? n : r.range(1, 9); if (ini && !adj) m = n; int old = n; bool changed = m != n, rst = false; n = m;
            if (r.coin(0.3) && e > 0) { if (r.coin()) a = a->clone(); else { auto b = k.make(); if (b->assign(*a)) a = std::move(b); } H::count("copied-between"); }
            if (adj) { if (a->adjust(n)) H::count("adjust-size"); else { adj = false; if (ini) { n = old; changed = false; } } }
            if (k.flags & HIST) if (!(changed && r.coin())) { rst = a->reset(); if (rst) H::count("reset"); } else H::count("size-change-without-reset");
            seq << n << (adj ? "a" : "") << (rst ? "r" : "") << " "; H::describe(k.name, " policy=", POLICY, " sizes: ", seq.str(), " e=", e); H::nontrivial();
            Prb p = Prb::make(r, n); int ops = r.range(1, 7); uint64_t sd = r.u64(); auto f = k.make(); if (POLICY == 2) f->adjust(n); f->start(p, l); a->start(p, l); a->oop_only = f->oop_only = r.coin(0.2);
            if (!(k.flags & (DNS | NORESET)) && r.coin(0.3)) { bool u = a->init(), w = f->init(); HREQUIRE(u == w, "init", "?"); if (u) H::count("initialize"); Tr x1 = f->state(), x2 = a->state(); x1.push_back(f->time()); x2.push_back(a->time()); std::string why; if (!same(x1, x2, 1e-10, why)) { H::violation("initialize", H::cat("initialize differs from a fresh stepper: ", why)); throw H::Abort(); } }
            for (int i = 0; i < ops; ++i) { Rng q(H::mix(sd + i)), q2(H::mix(sd + i)); Tr u, v; a->op(q, u); for (double z : u) HREQUIRE(std::isfinite(z), "uninitialised", "a value which is not finite: an element was used before it was computed?"); if (k.flags & NORESET) continue; f->op(q2, v); std::string why; if (!same(v, u, 1e-10, why)) { H::violation(POLICY == 0 ? "always-resizer" : POLICY == 1 ? "initially-resizer" : "never-resizer", H::cat("step ", i, " of episode ", e, " differs from a fresh stepper: ", why)); throw H::Abort(); } }
            H::count(changed ? (e ? "size-changed" : "first-use") : "size-kept");
        } };
    H::group(k.name, 80, [&](Rng &r) {
        Rng r2 = r; if (!warm) { warm = true; Rng w = r; scenario(w); }
        long live = mem().live; auto d0 = H::g().desc; scenario(r); HREQUIRE(mem().live == live, "leak", mem().live - live, " state containers are still allocated");
        // the same scenario again must not change the amount of allocated memory (leaks outside the state containers)
        if (r2.coin(0.1)) { size_t b0, b1, b2; b0 = bytes(); { Rng w = r2; scenario(w); } b1 = bytes(); { Rng w = r2; scenario(w); } b2 = bytes(); { Rng w = r2; scenario(w); } size_t b3 = bytes(); HREQUIRE(!(b1 < b2 && b2 < b3), "leak-bytes", "allocated bytes grow with every repetition: ", b0, ", ", b1, ", ", b2, ", ", b3); H::count("leak-checked"); } });
}
int main(int c, char **v) { H::init(c, v, "resize"); for (auto &k : kinds(PART)) one(k); return H::finish(); }
