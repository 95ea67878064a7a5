// Replacement of the OpenMP runtime entry points that GCC emits, built on std::thread so that ThreadSanitizer sees exactly the synchronisation OpenMP
// guarantees (fork, join, barriers, critical sections) and no more.  Work sharing hands out iterations with relaxed atomics, in chunks and at moments chosen
// at random, so that the assignment of iterations to threads is adversarial.  Anything not covered here falls through to libgomp.
#include <thread>
#include <mutex>
#include <atomic>
#include <vector>
#include <chrono>
#include <cstdlib>
#include <cstdio>
unsigned long gomp_shim_seed = 1; long gomp_shim_regions = 0, gomp_shim_chunks = 0;
namespace {
typedef unsigned long long ull;
struct Slot { std::atomic<ull> next{0}; std::atomic<int> taken{0}; };
struct Team { unsigned n; Slot slots[64]; std::atomic<unsigned> arrived{0}, phase{0}; std::atomic<long> chunks{0}; };
struct Ctx { Team *team = nullptr; unsigned id = 0; int ws = 0; ull start = 0, end = 0, incr = 1, cnt = 0, chunk = 0; bool up = true; int kind = 0; Slot *slot = nullptr; ull rng = 1; bool given = false; };
thread_local Ctx ctx; int icv_threads = 4; std::recursive_mutex crit, atom; std::atomic<ull> salt{0};
ull rnd() { ull &x = ctx.rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x * 0x2545F4914F6CDD1DULL >> 11; }
void stir(ull k) { ctx.rng = (gomp_shim_seed + 0x9E3779B97F4A7C15ULL * (k + 1)) | 1; rnd(); rnd(); }
void dawdle() { switch (rnd() % 8) { case 0: case 1: std::this_thread::yield(); break; case 2: for (volatile int i = 0; i < 200; ++i) {} break; case 3: if (rnd() % 16 == 0) std::this_thread::sleep_for(std::chrono::microseconds(30)); break; default:; } }
Slot *slot() { if (ctx.ws >= 64) { std::fprintf(stderr, "gomp shim: too many work sharing constructs\n"); std::_Exit(99); } return &ctx.team->slots[ctx.ws++]; }
Team *solo() { static thread_local Team *t = nullptr; if (!t) { t = new Team; t->n = 1; } return t; }
void need() { if (!ctx.team) { ctx.team = solo(); ctx.id = 0; ctx.ws = 0; ctx.team->~Team(); new (ctx.team) Team; ctx.team->n = 1; } }
void begin(int kind, bool up, ull s, ull e, ull inc, ull chunk) { need(); ctx.slot = slot(); ctx.kind = kind; ctx.up = up; ctx.start = s; ctx.end = e; ctx.incr = inc; ctx.chunk = chunk; ctx.given = false; }
ull count(bool sgn) { if (sgn) { long s = long(ctx.start), e = long(ctx.end), i = long(ctx.incr); if (i > 0) return s < e ? (ull(e) - ull(s) + i - 1) / i : 0; return s > e ? (ull(s) - ull(e) - i - 1) / (-i) : 0; }
    if (ctx.up) return ctx.start < ctx.end ? (ctx.end - ctx.start + ctx.incr - 1) / ctx.incr : 0; ull i = 0 - ctx.incr; return ctx.start > ctx.end ? (ctx.start - ctx.end + i - 1) / i : 0; }
bool next(bool sgn, ull *is, ull *ie) { dawdle(); ull n = count(sgn), a, b;
    if (ctx.kind == 0) { if (ctx.given) return false; ctx.given = true; ull q = n / ctx.team->n, r = n % ctx.team->n; a = ctx.id * q + (ctx.id < r ? ctx.id : r); b = a + q + (ctx.id < r); if (a == b) return false; }
    else { ull c = 1 + rnd() % (rnd() % 4 == 0 ? 9 : 2); if (ctx.slot->next.load(std::memory_order_relaxed) >= n) return false; a = ctx.slot->next.fetch_add(c, std::memory_order_relaxed); if (a >= n) return false; b = a + c < n ? a + c : n; }
    ctx.team->chunks.fetch_add(1, std::memory_order_relaxed); *is = ctx.start + a * ctx.incr; *ie = ctx.start + b * ctx.incr; return true; }
void barrier() { need(); Team *t = ctx.team; unsigned p = t->phase.load(std::memory_order_acquire); if (t->arrived.fetch_add(1, std::memory_order_acq_rel) + 1 == t->n) { t->arrived.store(0, std::memory_order_relaxed); t->phase.fetch_add(1, std::memory_order_acq_rel); } else while (t->phase.load(std::memory_order_acquire) == p) std::this_thread::yield(); }
template <class F> void team(F f, unsigned n) { Ctx saved = ctx; Team *t = new Team; if (saved.team && saved.team != solo()) n = 1; else if (n == 0) n = icv_threads; t->n = n; ull k = salt.fetch_add(1, std::memory_order_relaxed); std::vector<std::thread> th;
    auto body = [&](unsigned id) { ctx = Ctx(); ctx.team = t; ctx.id = id; stir(k * 131 + id); dawdle(); f(); };
    for (unsigned i = 1; i < n; ++i) th.emplace_back(body, i); body(0); for (auto &x : th) x.join(); ctx = saved; if (!saved.team) { __atomic_fetch_add(&gomp_shim_regions, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&gomp_shim_chunks, t->chunks.load(), __ATOMIC_RELAXED); } delete t; }
}
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { team([=] { fn(d); }, n); }
bool GOMP_parallel_reductions_unsupported() { return false; }
void GOMP_barrier() { barrier(); } void GOMP_loop_end() { barrier(); } void GOMP_loop_end_nowait() {}
void GOMP_critical_start() { crit.lock(); } void GOMP_critical_end() { crit.unlock(); } void GOMP_critical_name_start(void **) { crit.lock(); } void GOMP_critical_name_end(void **) { crit.unlock(); }
void GOMP_atomic_start() { atom.lock(); } void GOMP_atomic_end() { atom.unlock(); }
bool GOMP_single_start() { need(); return slot()->taken.exchange(1, std::memory_order_relaxed) == 0; }
unsigned GOMP_sections_start(unsigned c) { begin(1, true, 1, ull(c) + 1, 1, 1); ull a, b; ctx.kind = 2; unsigned k = unsigned(ctx.slot->next.fetch_add(1, std::memory_order_relaxed)); (void)a; (void)b; return k < c ? k + 1 : 0; }
unsigned GOMP_sections_next() { unsigned k = unsigned(ctx.slot->next.fetch_add(1, std::memory_order_relaxed)); return k + 1 < ctx.end ? k + 1 : 0; }
void GOMP_sections_end() { barrier(); } void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned) { team([=] { begin(2, true, 1, ull(c) + 1, 1, 1); fn(d); }, n); }
#define NEXTS(NM) bool GOMP_loop_##NM##_next(long *a, long *b) { return next(true, (ull *)a, (ull *)b); } bool GOMP_loop_ull_##NM##_next(ull *a, ull *b) { return next(false, a, b); }
#define CHUNKED(NM, K) bool GOMP_loop_##NM##_start(long s, long e, long i, long c, long *a, long *b) { begin(K, i > 0, s, e, i, c); return next(true, (ull *)a, (ull *)b); } bool GOMP_loop_ull_##NM##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { begin(K, up, s, e, i, c); return next(false, a, b); } \
    void GOMP_parallel_loop_##NM(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { team([=] { begin(K, i > 0, s, e, i, c); fn(d); }, n); } NEXTS(NM)
#define PLAIN(NM, K) bool GOMP_loop_##NM##_start(long s, long e, long i, long *a, long *b) { begin(K, i > 0, s, e, i, 0); return next(true, (ull *)a, (ull *)b); } bool GOMP_loop_ull_##NM##_start(bool up, ull s, ull e, ull i, ull *a, ull *b) { begin(K, up, s, e, i, 0); return next(false, a, b); } \
    void GOMP_parallel_loop_##NM(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { team([=] { begin(K, i > 0, s, e, i, 0); fn(d); }, n); } NEXTS(NM)
CHUNKED(static, 0) CHUNKED(dynamic, 1) CHUNKED(guided, 1) CHUNKED(nonmonotonic_dynamic, 1) CHUNKED(nonmonotonic_guided, 1) PLAIN(runtime, 1) PLAIN(nonmonotonic_runtime, 1) PLAIN(maybe_nonmonotonic_runtime, 1)
int omp_get_thread_num() { return ctx.team ? int(ctx.id) : 0; } int omp_get_num_threads() { return ctx.team ? int(ctx.team->n) : 1; } int omp_get_max_threads() { return icv_threads; } int omp_in_parallel() { return ctx.team && ctx.team != solo(); }
void omp_set_num_threads(int n) { icv_threads = n < 1 ? 1 : n; } void omp_set_dynamic(int) {} void omp_set_schedule(int, int) {} int omp_get_num_procs() { return 8; }
}
