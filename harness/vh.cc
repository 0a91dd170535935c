#include <clocale>
#include "vh.h"
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
extern "C" {
#include "gutil_log.h"
}

#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define VH_ASAN 1
#  endif
#  if __has_feature(thread_sanitizer)
#    define VH_TSAN 1
#  endif
#endif
#ifdef VH_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

// Freed memory monitor. AddressSanitizer doesn't see what is done by GLib and
// other libraries, but it fills freed blocks (malloc/free_fill_byte in run.py)
// and keeps them in quarantine. This finds out if they have been written to.
#define FREED_N 8192
#define FREED_FILL 0xde
static struct { const u8* p; size_t n; } freed[FREED_N];
static u64 freed_count, freed_checked;
static bool freed_on;
__attribute__((no_sanitize("address"))) static void free_hook(const volatile void* p)
{
    if (!freed_on || !p) return;
    const u64 i = __atomic_fetch_add(&freed_count, 1, __ATOMIC_RELAXED) % FREED_N;
    freed[i].p = (const u8*)p;
    freed[i].n = __sanitizer_get_allocated_size(p);
    // Large blocks are mapped: others may appear in their place (and not begin there)
    if (freed[i].n > 65536) freed[i].n = 0;
}
__attribute__((no_sanitize("address"))) static const u8* freed_check()
{
    const u8* bad = NULL;
    const u64 n = MIN(freed_count, (u64)FREED_N);
    for (u64 i = 0; i < n && !bad; i++) {
        const u8* p = freed[i].p;
        const size_t m = MIN(freed[i].n, (size_t)256);
        for (size_t k = 8; k + 8 <= m; k += 8) {    // there is something of its own in the first word
            if (*(const u8*)(((size_t)(p + k) >> 3) + 0x7fff8000) != 0xfd) break;   // in use again
            u64 v = *(const u64*)(p + k);
            if (v != FREED_FILL * 0x0101010101010101ULL) { bad = p + k; break; }
            freed_checked++;
        }
    }
    freed_count = 0;
    return bad;
}
#endif

static Prop* props;
static Scenario* scenarios;
Prop::Prop(const char* i, CaseFn f) : id(i), fn(f), next(props) { props = this; }
Scenario::Scenario(const char* n, ScenFn f) : name(n), fn(f), next(scenarios) { scenarios = this; }

#define TRACE_N 256
#define TRACE_LEN 192
struct Progress {
    u64 case_idx;
    u64 heartbeat;
    u64 failed;
    char kind[64];
    char msg[4096];
    u64 trace_n;
    char trace[TRACE_N][TRACE_LEN];
};
static Progress progress_dummy;
static Progress* progress = &progress_dummy;
static u64 digest, resdigest;
static bool nontrivial;
static bool watch_memory = true, watch_glib = true;
static bool in_case;
const char* vh_variant = "?";
void (*vh_glib_log_hook)(const char*, GLogLevelFlags, const char*);
static pthread_t main_thread;
int vh_log_initial[3];

#define MAX_COUNTERS 1024
u64 vh_counters[MAX_COUNTERS];
static const char* counter_names[MAX_COUNTERS];
static int n_counters;
static pthread_mutex_t counter_mutex = PTHREAD_MUTEX_INITIALIZER;

int vh_counter(const char* name)
{
    pthread_mutex_lock(&counter_mutex);
    int i;
    for (i = 0; i < n_counters && strcmp(counter_names[i], name); i++);
    if (i == n_counters) {
        if (n_counters >= MAX_COUNTERS) abort();
        counter_names[n_counters++] = name;
    }
    pthread_mutex_unlock(&counter_mutex);
    return i;
}

static void fold(u64& d, const void* p, size_t n)
{
    const u8* b = (const u8*)p;
    u64 h = d;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL;
    d = h;
}

void vh_op(const char* fmt, ...)
{
    if (!pthread_equal(pthread_self(), main_thread)) return;
    char* slot = progress->trace[progress->trace_n % TRACE_N];
    va_list va;
    va_start(va, fmt);
    int n = vsnprintf(slot, TRACE_LEN, fmt, va);
    va_end(va);
    if (n >= TRACE_LEN) n = TRACE_LEN - 1;
    progress->trace_n++;
    fold(digest, slot, n);
}

void vh_key(u64 v) { fold(digest, &v, sizeof(v)); }
void vh_mix(u64 v) { if (pthread_equal(pthread_self(), main_thread)) resdigest = vh_hash64(resdigest ^ v); }
void vh_mix_buf(const void* p, size_t n) { fold(resdigest, p, n); vh_mix(n); }
void vh_nontrivial() { nontrivial = true; }
void vh_heartbeat() { __atomic_fetch_add(&progress->heartbeat, 1, __ATOMIC_RELAXED); }
void vh_watch_memory(bool on) { watch_memory = on; }
void vh_watch_glib(bool on) { watch_glib = on; }

bool vh_is_tsan()
{
#ifdef VH_TSAN
    return true;
#else
    return false;
#endif
}

void vh_fail(const char* kind, const char* fmt, ...)
{
    va_list va;
    va_start(va, fmt);
    vsnprintf(progress->msg, sizeof(progress->msg), fmt, va);
    va_end(va);
    snprintf(progress->kind, sizeof(progress->kind), "%s", kind);
    progress->failed = 1;
    dprintf(2, "VH_FAIL case %llu [%s] %s\n", (unsigned long long)progress->case_idx,
        kind, progress->msg);
    u64 n = progress->trace_n, first = n > 40 ? n - 40 : 0;
    for (u64 i = first; i < n; i++)
        dprintf(2, "  op %llu: %s\n", (unsigned long long)i, progress->trace[i % TRACE_N]);
    _exit(70);
}

// GASSERT hook (the linker redirects the library's calls here)
void (*vh_assert_hook)(const GLogModule* module, int level, const char* expr, const char* file, int line);
extern "C" void __wrap_gutil_log_assert(const GLogModule* module, int level,
    const char* expr, const char* file, int line)
{
    if (vh_assert_hook) { vh_assert_hook(module, level, expr, file, line); return; }
    vh_fail("assert", "internal assertion failed: %s at %s:%d", expr, file, line);
}

static void lib_log(const char* name, int level, const char* format, va_list va)
{
    static __thread char buf[2048];
    vsnprintf(buf, sizeof(buf), format, va);
    CNT("library_messages");
}

static void glib_log(const char* domain, GLogLevelFlags level, const char* msg, gpointer)
{
    if (vh_glib_log_hook) {
        vh_glib_log_hook(domain, level, msg);
    } else if (watch_glib && (level & (G_LOG_LEVEL_ERROR | G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_WARNING))) {
        vh_fail("glib", "GLib diagnostic: %s: %s", domain ? domain : "", msg);
    }
}

// close() monitor: closing something which is not open is how a double close
// of a descriptor shows up
u64 vh_bad_closes;
int vh_last_bad_close = -1;
#ifdef VH_ASAN
extern "C" int close(int fd)
{
    int ret = (int)syscall(SYS_close, fd);
    if (ret < 0 && errno == EBADF) {
        __atomic_fetch_add(&vh_bad_closes, 1, __ATOMIC_RELAXED);
        vh_last_bad_close = fd;
    }
    return ret;
}
#endif

int vh_open_fds(std::string* list)
{
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    if (!d) return -1;
    struct dirent* e;
    while ((e = readdir(d)) != NULL) {
        if (e->d_name[0] == '.') continue;
        if (atoi(e->d_name) == dirfd(d)) continue;
        n++;
        if (list) {
            char path[64], buf[256];
            snprintf(path, sizeof(path), "/proc/self/fd/%s", e->d_name);
            ssize_t k = readlink(path, buf, sizeof(buf) - 1);
            if (k < 0) k = 0;
            buf[k] = 0;
            *list += std::string(e->d_name) + "=" + buf + " ";
        }
    }
    closedir(d);
    return n;
}

static std::string scratch_dir;
static bool scratch_own;
std::string vh_scratch()
{
    if (scratch_dir.empty()) {
        char t[] = "/tmp/vhXXXXXX";
        if (!mkdtemp(t)) vh_fail("harness", "mkdtemp failed");
        scratch_dir = t;
        scratch_own = true;
    }
    return scratch_dir;
}

int vh_iterate(GMainContext* ctx, int max)
{
    int n = 0;
    while (n < max && g_main_context_iteration(ctx, FALSE)) n++;
    return n;
}

std::string vh_hex(const void* p, size_t n, size_t max)
{
    static const char h[] = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n && i < max; i++) { s += h[((u8*)p)[i] >> 4]; s += h[((u8*)p)[i] & 15]; }
    if (n > max) s += "..(" + std::to_string(n) + ")";
    return s;
}

std::string vh_quote(const char* s, size_t max)
{
    if (!s) return "NULL";
    std::string o = "\"";
    size_t n = strlen(s);
    for (size_t i = 0; i < n && i < max; i++) {
        char b[8];
        if (s[i] >= 32 && s[i] < 127 && s[i] != '"' && s[i] != '\\') o += s[i];
        else { snprintf(b, sizeof(b), "\\x%02x", (u8)s[i]); o += b; }
    }
    o += "\"";
    if (n > max) o += "..(" + std::to_string(n) + ")";
    return o;
}

static u64 seed_of(const char* id, u64 seed, u64 idx)
{
    u64 h = vh_hash64(seed);
    for (const char* p = id; *p; p++) h = vh_hash64(h ^ (u8)*p);
    return vh_hash64(h ^ vh_hash64(idx));
}

// Programs which call setlocale() exist too. Each of these differs from C in the
// order of strings, the case of letters, the names of months and the decimal point.
static const char* const locale_names[] = { "tr_TR.ISO-8859-9", "cs_CZ.ISO-8859-2", "lt_LT.UTF-8" };
static std::vector<const char*> locales;
static void load_locales()
{
    if (!getenv("LOCPATH")) return;
    for (const char* l : locale_names) if (setlocale(LC_ALL, l)) locales.push_back(l);
    setlocale(LC_ALL, "C");
}
static const char* locale_of(Prop* p, u64 idx)
{
    // What is printable depends on the locale
    return idx % 13 == 7 && !locales.empty() && strcmp(p->id, "C21") ? locales[(idx / 13) % locales.size()] : NULL;
}

static void run_one(Prop* p, u64 seed, u64 idx, bool thorough)
{
    Case c;
    c.idx = idx;
    c.r = Rng(seed_of(p->id, seed, idx));
    c.thorough = thorough;
    digest = resdigest = 0xcbf29ce484222325ULL;
    nontrivial = false;
    progress->case_idx = idx;
    progress->trace_n = 0;
    const char* l = locale_of(p, idx);
    if (l) { setlocale(LC_ALL, l); CNT("other_locale"); vh_op("locale %s", l); }
    in_case = true;
    p->fn(c);
    in_case = false;
    if (l) setlocale(LC_ALL, "C");
    progress->heartbeat++;
}

static size_t allocated()
{
#ifdef VH_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

// Runs a case under the resource monitors. Growth of the heap or of the
// descriptor table has to repeat each time the very same case is run again
// to count, one time allocations by GLib are not leaks.
static void run_monitored(Prop* p, u64 seed, u64 idx, bool thorough)
{
#ifdef VH_ASAN
    freed_on = getenv("VH_FREED_FILL") != NULL;
#endif
    size_t before = allocated();
    int fds = (idx & 15) ? -1 : vh_open_fds();
    run_one(p, seed, idx, thorough);
    const u64 d = digest, rd = resdigest;
    const bool nt = nontrivial;
    long grown = (long)allocated() - (long)before;
    bool leak = watch_memory && grown > 0, fdleak = fds >= 0 && vh_open_fds() > fds;
    for (int i = 0; i < 4 && (leak || fdleak); i++) {
        before = allocated();
        fds = vh_open_fds();
        run_one(p, seed, idx, thorough);
        grown = (long)allocated() - (long)before;
        leak = leak && grown > 0;
        fdleak = fdleak && vh_open_fds() > fds;
    }
#ifdef VH_ASAN
    freed_on = false;
    if (const u8* bad = freed_check()) vh_fail("freed", "memory has been modified after it was freed");
#endif
    if (leak) vh_fail("leak", "%ld bytes not released by the end of the case", grown);
    if (fdleak) {
        std::string l;
        vh_open_fds(&l);
        vh_fail("fdleak", "file descriptors not released by the end of the case: %s", l.c_str());
    }
    if (g_main_context_pending(NULL)) vh_fail("source", "event source still pending at the end of the case");
    if (vh_bad_closes) vh_fail("close", "close() of descriptor %d which was not open", vh_last_bad_close);
    digest = d;
    resdigest = rd;
    nontrivial = nt;
}

static void json_str(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; s++) {
        if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
        else if ((u8)*s < 32 || (u8)*s >= 127) fprintf(f, "\\u%04x", (u8)*s);
        else fputc(*s, f);
    }
    fputc('"', f);
}

int main(int argc, char** argv)
{
    const char *prop = NULL, *out = NULL, *prog = NULL, *dig = NULL, *scen = NULL;
    u64 seed = 1, start = 0, count = 1, stride = 1;
    bool thorough = false, verbose = false;
    main_thread = pthread_self();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        const char* v = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--prop") prop = v, i++;
        else if (a == "--seed") seed = strtoull(v, NULL, 0), i++;
        else if (a == "--start") start = strtoull(v, NULL, 0), i++;
        else if (a == "--count") count = strtoull(v, NULL, 0), i++;
        else if (a == "--stride") stride = strtoull(v, NULL, 0), i++;
        else if (a == "--out") out = v, i++;
        else if (a == "--digests") dig = v, i++;
        else if (a == "--progress") prog = v, i++;
        else if (a == "--scratch") scratch_dir = v, i++;
        else if (a == "--variant") vh_variant = v, i++;
        else if (a == "--scenario") scen = v, i++;
        else if (a == "--thorough") thorough = true;
        else if (a == "--verbose") verbose = true;
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    if (prog) {
        int fd = open(prog, O_RDWR | O_CREAT | O_CLOEXEC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Progress)) < 0) { perror(prog); return 2; }
        void* m = mmap(NULL, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) { perror("mmap"); return 2; }
        close(fd);
        progress = (Progress*)m;
        memset(progress, 0, sizeof(*progress));
    }
    vh_log_initial[0] = gutil_log_default.level;
    vh_log_initial[1] = gutil_log_timestamp;
    vh_log_initial[2] = gutil_log_tid;
    g_log_set_default_handler(glib_log, NULL);
#ifdef VH_ASAN
    __sanitizer_install_malloc_and_free_hooks([](const volatile void*, size_t) {}, free_hook);
#endif
    gutil_log_default.level = GLOG_LEVEL_NONE;
    if (getenv("VH_LIB_LOG")) {
        // The library's own log statements are evaluated and formatted
        gutil_log_default.level = GLOG_LEVEL_VERBOSE;
        gutil_log_func = lib_log;
    }
    if (scen) {
        for (Scenario* s = scenarios; s; s = s->next) {
            if (!strcmp(s->name, scen)) { s->fn(); return 0; }
        }
        fprintf(stderr, "no scenario %s\n", scen);
        return 2;
    }
    Prop* p = props;
    while (p && (!prop || strcmp(p->id, prop))) p = p->next;
    if (!p) { fprintf(stderr, "no property %s\n", prop); return 2; }

    load_locales();
    FILE* df = NULL;
    if (dig && !(df = fopen(dig, "wb"))) { perror(dig); return 2; }
    struct { char text[1200]; } *samples = (decltype(samples))calloc(4, 1200);
    int ns = 0;
    u64 nt = 0;
    for (u64 i = 0; i < count; i++) {
        const u64 idx = start + i * stride;
        run_monitored(p, seed, idx, thorough);
        if (df) {
            u64 rec[3] = { digest, resdigest, nontrivial };
            fwrite(rec, sizeof(rec), 1, df);
        }
        if (nontrivial) {
            nt++;
            if (ns < 3 && progress->trace_n > 0 && (ns == 0 || nt % 97 == 0)) {
                char* t = samples[ns++].text;
                int n = snprintf(t, 1200, "case %llu:", (unsigned long long)idx);
                u64 m = MIN(progress->trace_n, (u64)TRACE_N);
                for (u64 k = progress->trace_n - m; k < progress->trace_n && n < 1000; k++)
                    n += snprintf(t + n, 1200 - n, " %s;", progress->trace[k % TRACE_N]);
            }
        }
        if (verbose) {
            printf("case %llu digest %016llx res %016llx nontrivial %d\n", (unsigned long long)idx,
                (unsigned long long)digest, (unsigned long long)resdigest, nontrivial);
            u64 m = MIN(progress->trace_n, (u64)TRACE_N);
            for (u64 k = progress->trace_n - m; k < progress->trace_n; k++)
                printf("   %s\n", progress->trace[k % TRACE_N]);
        }
    }
    if (df) fclose(df);
#ifdef VH_ASAN
    CNTN("freed_words_checked", freed_checked);
#endif
    if (out) {
        FILE* f = fopen(out, "w");
        if (!f) { perror(out); return 2; }
        fprintf(f, "{\"cases\":%llu,\"nontrivial\":%llu,\"counters\":{", (unsigned long long)count, (unsigned long long)nt);
        for (int i = 0; i < n_counters; i++) {
            if (i) fputc(',', f);
            json_str(f, counter_names[i]);
            fprintf(f, ":%llu", (unsigned long long)vh_counters[i]);
        }
        fprintf(f, "},\"samples\":[");
        for (int i = 0; i < ns; i++) { if (i) fputc(',', f); json_str(f, samples[i].text); }
        fprintf(f, "]}\n");
        fclose(f);
    }
    if (scratch_own) rmdir(scratch_dir.c_str());
    return 0;
}

// Pointer arithmetic is the only recoverable check: NULL + 0 (an empty block
// with no data) is let through, everything else is a failure.
extern "C" void __ubsan_get_current_report_data(const char**, const char**, const char**,
    unsigned*, unsigned*, char**) __attribute__((weak));
extern "C" __attribute__((no_sanitize("address", "thread"))) void __ubsan_on_report(void)
{
    const char *kind = NULL, *msg = NULL, *file = NULL;
    unsigned line = 0, col = 0;
    char* addr = NULL;
    if (!__ubsan_get_current_report_data) return;
    __ubsan_get_current_report_data(&kind, &msg, &file, &line, &col, &addr);
    if (!strcmp(kind, "pointer-overflow") || !strcmp(kind, "nullptr-with-nonzero-offset") || !strcmp(kind, "nullptr-after-nonzero-offset"))
        vh_fail("sanitizer", "%s:%u: runtime error: %s", file ? file : "?", line, msg);
}

// Delay injection: these are called by the library if it's instrumented
static __thread u64 delay_state;
void vh_delays(bool on)
{
    static u64 n;
    delay_state = on ? vh_hash64(__atomic_add_fetch(&n, 1, __ATOMIC_RELAXED) ^ progress->case_idx * 1000003) | 1 : 0;
}
#define NOSAN __attribute__((no_sanitize("address", "thread", "undefined")))
NOSAN static inline void delay_point()
{
    u64 x = delay_state;
    if (!x) return;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    delay_state = x;
    CNT("delay_points");
    switch ((x >> 20) & 63) {
    case 0: case 1: case 2: sched_yield(); break;
    case 3: case 4: case 5: case 6: case 7: case 8: case 9: case 10:
        for (volatile int i = (x >> 30) & 1023; i > 0; i--);
        break;
    case 11: if (!((x >> 40) & 7)) { struct timespec ts = { 0, 30000 }; nanosleep(&ts, NULL); } break;
    }
}
extern "C" {
NOSAN void __sanitizer_cov_trace_pc_guard_init(u32* start, u32* stop) { u32 n = 0; while (start < stop) *start++ = ++n; }
NOSAN void __sanitizer_cov_trace_pc_guard(u32*) { delay_point(); }
#define COV(n, T) \
NOSAN void __sanitizer_cov_load##n(T*) { delay_point(); } \
NOSAN void __sanitizer_cov_store##n(T*) { delay_point(); }
COV(1, uint8_t) COV(2, uint16_t) COV(4, uint32_t) COV(8, uint64_t) COV(16, __int128)
}
