// Common harness of all drivers: deterministic case generation, operation
// trace, counters, oracles' failure reporting and resource-balance monitors.
#pragma once
#include <glib.h>
#include <glib-object.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <utility>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <algorithm>
#include <climits>
#include <fcntl.h>
#include <unistd.h>
#include <sys/syscall.h>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

static inline u64 vh_hash64(u64 x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        return x ^ (x >> 31); }
    // Uniform in [0,n)
    u64 below(u64 n) { return n ? next() % n : 0; }
    // Uniform in [a,b]
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a) + 1); }
    bool pct(int p) { return (int)below(100) < p; }
    // Small most of the time, sometimes large
    u64 size(u64 max) {
        switch (below(8)) {
        case 0: return below(MIN(max, 1) + 1);
        case 1: case 2: case 3: return below(MIN(max, 8) + 1);
        case 4: case 5: return below(MIN(max, 40) + 1);
        case 6: return below(MIN(max, 300) + 1);
        default: return below(2) ? below(max + 1) : MIN(max, round_number(max) + below(3) - 1);
        }
    }
    // Powers of two and ten, from 1 up to the maximum
    u64 round_number(u64 max) {
        u64 n = 1, v = 1;
        const u64 base = below(3) ? 2 : 10;
        while (v <= max / base) { v *= base; n++; }
        for (v = 1, n = below(n); n; n--) v *= base;
        return v;
    }
    // Around one of those
    u64 near_round(u64 max) {
        const u64 k = round_number(max) + below(6);
        return k < 3 ? 0 : k - 3;
    }
    // Interesting 64-bit patterns: boundaries, bit patterns, random width
    u64 bits64() {
        switch (below(7)) {
        case 0: return below(256);
        case 1: { u64 v = 1ULL << below(64); return v + (u64)range(-2, 2); }
        case 2: { u64 v = 1ULL << below(64); return (u64)0 - v + (u64)range(-2, 2); }
        case 3: { u64 v = 1ULL << (7 * below(10) % 64); return v + (u64)range(-2, 2); }
        case 4: return next() >> below(64);
        case 5: return ~(next() >> below(64));
        default: return next();
        }
    }
    // What C code may pass for true
    int truth(bool b) { return !b ? 0 : pct(60) ? 1 : pct(50) ? 1 << below(31) : pct(50) ? -1 - (int)below(4) : 2 + (int)below(8); }
    int int32() {
        switch (below(8)) {
        case 0: return (int)range(-3, 3);
        case 1: return INT_MAX - (int)below(3);
        case 2: return INT_MIN + (int)below(3);
        case 3: { const int v = (int)((u32)round_number(0x80000000u) + (u32)range(-1, 1)); return below(4) ? v : (int)(0u - (u32)v); }
        case 4: return (int)range(-100, 100);
        case 5: return (int)((u32)next() >> below(32));
        case 6: return -(int)((u32)next() >> (1 + below(31)));
        default: return (int)(u32)next();
        }
    }
    template<class T> T& pick(std::vector<T>& v) { return v[below(v.size())]; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Case {
    u64 idx;        // case number, (seed, property, idx) determines everything
    Rng r;
    bool thorough;
};

typedef void (*CaseFn)(Case& c);
struct Prop {
    const char* id;
    CaseFn fn;
    Prop* next;
    Prop(const char* id, CaseFn fn);
};
#define VH_PROP(ID, fn) static Prop prop_##ID(#ID, fn)

// Named scenarios: replay of known findings
typedef void (*ScenFn)();
struct Scenario {
    const char* name;
    ScenFn fn;
    Scenario* next;
    Scenario(const char* name, ScenFn fn);
};
#define VH_SCENARIO(ID, name, fn) static Scenario scen_##ID(name, fn)

// Trace of operations: kept in shared memory (survives a crash) and folded
// in the digest of the case
void vh_op(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Folded in the digest of the case without being traced
void vh_key(u64 v);
// Results: folded in the digest which is compared across builds (C35)
void vh_mix(u64 v);
void vh_mix_buf(const void* p, size_t n);
// Marks the current case as non-trivial
void vh_nontrivial();
[[noreturn]] void vh_fail(const char* kind, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
#define CHECK(cond, ...) do { if (!(cond)) vh_fail("oracle", __VA_ARGS__); } while (0)
#define CHECK_EQ(a, b, what) do { auto a_ = (a); auto b_ = (b); \
    if (!(a_ == b_)) vh_fail("oracle", "%s: got %lld expected %lld (%s:%d)", what, \
        (long long)a_, (long long)b_, __FILE__, __LINE__); } while (0)

// Counters
int vh_counter(const char* name);
extern u64 vh_counters[];
#define CNT(name) CNTN(name, 1)
#define CNTN(name, n) do { static const int c_ = vh_counter(name); \
    __atomic_fetch_add(&vh_counters[c_], (u64)(n), __ATOMIC_RELAXED); } while (0)

// Resource monitors (see vh.cc)
void vh_watch_memory(bool on);      // per-case allocation balance (default on)
void vh_watch_glib(bool on);        // GLib diagnostics are failures (default on)
void vh_expect_log(bool on);        // do not count GERR/GWARN output
extern void (*vh_assert_hook)(const struct glog_module* module, int level, const char* expr, const char* file, int line);
extern void (*vh_glib_log_hook)(const char* domain, GLogLevelFlags level, const char* msg);
int vh_open_fds(std::string* list = NULL);
extern u64 vh_bad_closes;           // number of close() calls that failed with EBADF
extern int vh_last_bad_close;
void vh_heartbeat();
bool vh_is_tsan();
extern int vh_log_initial[3];       // level, timestamp, tid at startup

void vh_delays(bool on);            // random delays at every memory access and branch
                                    // of the library made by this thread (if built so)
std::string vh_scratch();           // private scratch directory of this process
extern const char* vh_variant;      // "dbg", "rel", "tsan", "vg"

// Runs the main loop until nothing is ready. Returns number of dispatches.
int vh_iterate(GMainContext* ctx = NULL, int max = 1000);

// Exactly sized heap copy: anything outside of it is a red zone
struct Exact {
    u8* p; size_t n;
    Exact(const void* src, size_t len) : p((u8*)malloc(len ? len : 1)), n(len)
        { if (len) memcpy(p, src, len); }
    explicit Exact(const std::string& s) : Exact(s.data(), s.size()) {}
    explicit Exact(const std::vector<u8>& s) : Exact(s.data(), s.size()) {}
    ~Exact() { free(p); }
    Exact(const Exact&) = delete;
    Exact& operator=(const Exact&) = delete;
};
// Same, at an arbitrary misalignment. The end is still exact.
struct ExactAt {
    u8* base; u8* p; size_t n;
    ExactAt(const void* src, size_t len, size_t off) :
        base((u8*)malloc(len + off ? len + off : 1)), p(base + off), n(len)
        { if (len) memcpy(p, src, len); }
    ~ExactAt() { free(base); }
    ExactAt(const ExactAt&) = delete;
    ExactAt& operator=(const ExactAt&) = delete;
};
// Rare cases with sizes around and above 2^15 and 2^16 (too slow for valgrind)
static inline bool vh_big(const Case& c, u64 every) { return c.idx % every == every / 2 && strncmp(vh_variant, "vg", 2); }
// What is too slow for the other builds; not where builds are compared (C35)
static inline bool vh_o3(const Case& c) { return !strcmp(vh_variant, "o3") && c.idx < 1ULL << 43; }
// Sometimes a process has thousands of descriptors
static inline int vh_high_fd(const Case& c) { static const int n[] = { 130, 260, 1100, 15000, 40000, 70000 }; return c.idx % 17 == 3 ? n[(c.idx / 17) % 6] : 0; }
static inline int vh_high_fd(int fd, int min) {
    const int n = min && fd ? fcntl(fd, F_DUPFD, min) : -1;
    if (n < 0) return fd;       // that many are not allowed
    syscall(SYS_close, fd);
    CNT("high_descriptor");
    return n;
}
// Calls a variadic function with N arguments and NULL
template<class F, class T, size_t... I> static inline auto vh_call_n(F f, T* a, std::index_sequence<I...>) { return f(a[I]..., (T)NULL); }
template<size_t N, class F, class T> static inline auto vh_call_n(F f, T* a) { return vh_call_n(f, a, std::make_index_sequence<N>()); }
static inline size_t vh_big_size(Rng& r) {
    switch (r.below(5)) {
    case 0: return 32768 + r.range(-3, 3);
    case 1: return 65536 + r.range(-3, 3);
    case 2: return 32768 + r.below(20000);
    case 3: return 65536 + r.below(5000);
    default: return 131072 + r.range(-3, 3);
    }
}
std::string vh_hex(const void* p, size_t n, size_t max = 40);
static inline std::string vh_hex(const std::vector<u8>& v) { return vh_hex(v.data(), v.size()); }
std::string vh_quote(const char* s, size_t max = 60);
