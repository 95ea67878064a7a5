// Common harness for all drivers: deterministic case generation, violation/coverage recording,
// crash/hang attribution.  No dependency on the code under test.
#ifndef VERIF_H_HPP
#define VERIF_H_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>

namespace H {

inline uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
inline uint64_t hstr(const std::string &s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t u64() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    double u01() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u01(); }
    int range(int lo, int hi) { return lo + int(u64() % uint64_t(hi - lo + 1)); } // inclusive
    bool coin(double p = 0.5) { return u01() < p; }
    double sign() { return coin() ? 1.0 : -1.0; }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    // dyadic number k/2^bits in [a,b]: additions of few of them are exact
    double dy(double a, double b, int bits) { double sc = std::ldexp(1.0, bits); return std::floor(uni(a, b) * sc) / sc; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[u64() % v.size()]; }
};

struct Budget : std::runtime_error { Budget() : std::runtime_error("call budget exceeded (no termination?)") {} };
struct Abort {}; // leave the current case (a violation has been recorded)

struct Viol { std::string key, msg, group; int index; };

struct G { // global state of a driver
    std::string driver, out, mark, only_group;
    int only_index = -1;
    uint64_t seed = 1;
    bool thorough = false;
    double scale = 1.0; // multiplies case numbers
    std::string group; int index = 0;
    std::string desc;
    long evals = 0, nontriv = 0;
    std::map<std::string, long> counters, groups;
    std::map<std::string, double> maxima;
    std::map<std::string, int> vcount;
    std::vector<Viol> viol;
    std::vector<std::string> samples;
    std::set<uint64_t> distinct;
    char *markp = nullptr;
    bool case_nontrivial = false; std::string case_sig;
    bool finished = false;
};
inline G &g() { static G x; return x; }

inline std::string esc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

inline void flush() {
    G &x = g(); if (x.out.empty()) return;
    std::string tmp = x.out + ".tmp"; FILE *f = fopen(tmp.c_str(), "w"); if (!f) return;
    fprintf(f, "{\"driver\":\"%s\",\"finished\":%s,\"evaluations\":%ld,\"nontrivial\":%ld,\"distinct_nontrivial\":%zu,", x.driver.c_str(), x.finished ? "true" : "false", x.evals, x.nontriv, x.distinct.size());
    fprintf(f, "\"counters\":{"); bool c = false; for (auto &p : x.counters) { fprintf(f, "%s\"%s\":%ld", c ? "," : "", esc(p.first).c_str(), p.second); c = true; }
    fprintf(f, "},\"maxima\":{"); c = false; for (auto &p : x.maxima) { fprintf(f, "%s\"%s\":\"%.3g\"", c ? "," : "", esc(p.first).c_str(), p.second); c = true; }
    fprintf(f, "},\"groups\":{"); c = false; for (auto &p : x.groups) { fprintf(f, "%s\"%s\":%ld", c ? "," : "", esc(p.first).c_str(), p.second); c = true; }
    fprintf(f, "},\"samples\":["); c = false; for (auto &p : x.samples) { fprintf(f, "%s\"%s\"", c ? "," : "", esc(p).c_str()); c = true; }
    fprintf(f, "],\"violations\":["); c = false;
    for (auto &v : x.viol) { fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"group\":\"%s\",\"index\":%d}", c ? "," : "", esc(v.key).c_str(), esc(v.msg).c_str(), esc(v.group).c_str(), v.index); c = true; }
    fprintf(f, "]}\n"); fclose(f); rename(tmp.c_str(), x.out.c_str());
}

inline void on_alarm(int) { if (g().markp) memcpy(g().markp, "HANG", 4); static const char m[] = "\nVERIF-HANG\n"; ssize_t r = write(2, m, sizeof(m) - 1); (void)r; _exit(77); }

inline void init(int argc, char **argv, const char *name) {
    G &x = g(); x.driver = name;
    if (const char *s = getenv("VERIF_SEED")) x.seed = strtoull(s, 0, 10);
    if (const char *s = getenv("VERIF_TIER")) x.thorough = !strcmp(s, "thorough");
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--out" && i + 1 < argc) x.out = argv[++i];
        else if (a == "--mark" && i + 1 < argc) x.mark = argv[++i];
        else if (a == "--group" && i + 1 < argc) x.only_group = argv[++i];
        else if (a == "--index" && i + 1 < argc) x.only_index = atoi(argv[++i]);
        else if (a == "--scale" && i + 1 < argc) x.scale = atof(argv[++i]);
        else if (a == "--seed" && i + 1 < argc) x.seed = strtoull(argv[++i], 0, 10);
    }
    if (!x.mark.empty()) { int fd = open(x.mark.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd >= 0 && ftruncate(fd, 4096) == 0) { void *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) x.markp = (char *)p; } }
    signal(SIGVTALRM, on_alarm);
}
inline void arm(int cpu_seconds) { itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = cpu_seconds; setitimer(ITIMER_VIRTUAL, &t, 0); }
inline void setmark(const char *st) { G &x = g(); if (!x.markp) return; snprintf(x.markp, 4096, "%s\n%s\n%d\n%s\n", st, x.group.c_str(), x.index, x.desc.substr(0, 3500).c_str()); }

// ---- reporting --------------------------------------------------------------------------------
inline bool &worker() { static thread_local bool w = false; return w; } // worker threads do not record anything (recording would synchronise them)
inline std::string &werr() { static thread_local std::string e; return e; }
inline void violation(const std::string &key, const std::string &msg) {
    if (worker()) { if (werr().empty()) werr() = key + ": " + msg; return; }
    G &x = g(); std::string k = x.group + ":" + key;
    if (++x.vcount[k] <= 3) { x.viol.push_back({x.driver + "/" + k, "[" + x.desc + "] " + msg, x.group, x.index}); if (!x.only_group.empty()) fprintf(stderr, "VIOL %s/%s: [%s] %s\n", x.driver.c_str(), k.c_str(), x.desc.c_str(), msg.c_str()); }
}
inline void cat1(std::ostringstream &) {}
template <class A, class... R> void cat1(std::ostringstream &o, const A &a, const R &...r) { o << a; cat1(o, r...); }
template <class... R> std::string cat(const R &...r) { std::ostringstream o; o.precision(17); cat1(o, r...); return o.str(); }
inline void count(const std::string &k, long n = 1) { if (!worker()) g().counters[k] += n; }
inline void maxi(const std::string &k, double v) { if (worker()) return; auto it = g().maxima.find(k); if (it == g().maxima.end()) g().maxima[k] = v; else if (v > it->second) it->second = v; }
// describe the current case; the description is the distinctness signature
template <class... R> void describe(const R &...r) { std::ostringstream o; o.precision(10); cat1(o, r...); g().desc = o.str(); g().case_sig = g().desc; setmark("CASE"); }
inline void nontrivial(bool b = true) { g().case_nontrivial = g().case_nontrivial || b; }
#define HCHECK(cond, key, ...) do { if (!(cond)) ::H::violation(key, ::H::cat(__VA_ARGS__)); } while (0)
#define HREQUIRE(cond, key, ...) do { if (!(cond)) { ::H::violation(key, ::H::cat(__VA_ARGS__)); throw ::H::Abort(); } } while (0)

template <class T> std::string tn() { return typeid(T).name(); }

// run n cases of a group.  f(Rng&) must be deterministic in the rng.
template <class F> void group(const std::string &name, int n, F f, int cpu_limit = 120) {
    G &x = g();
    if (!x.only_group.empty() && x.only_group != name) return;
    x.group = name; n = int(std::max(1.0, n * x.scale * (x.thorough ? 8 : 1)));
    int lo = 0, hi = n; if (x.only_index >= 0) { lo = x.only_index; hi = lo + 1; }
    for (int i = lo; i < hi; ++i) {
        x.index = i; x.desc = ""; x.case_sig = ""; x.case_nontrivial = false; setmark("CASE");
        Rng r(mix(x.seed * 1000003u) ^ hstr(name) ^ mix(uint64_t(i) + 77));
        arm(cpu_limit);
        try { f(r); }
        catch (const Abort &) {}
        catch (const Budget &e) { violation("no-termination", e.what()); }
        catch (const std::exception &e) { violation("unexpected-exception", cat(typeid(e).name(), ": ", e.what())); }
        catch (...) { violation("unexpected-exception", "unknown exception"); }
        arm(0);
        ++x.evals; x.groups[name]++;
        if (x.case_nontrivial) { ++x.nontriv; x.distinct.insert(hstr(name + "|" + x.case_sig)); if (x.groups[name] == 1 && x.samples.size() < 40) x.samples.push_back(name + ": " + x.desc.substr(0, 300)); }
    }
    x.group = ""; setmark("IDLE"); flush();
}
inline int finish() { G &x = g(); x.finished = true; flush(); setmark("DONE"); return 0; }
} // namespace H
#endif
