// C18..C21, C34: logging
#include <functional>
#include "../harness/vh.h"
#include <sys/time.h>
#include <time.h>
#include <cerrno>
#include <cstdarg>
#include <csetjmp>
#include <fcntl.h>
#include <pthread.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <syslog.h>
#include <time.h>
#include <unistd.h>
extern "C" {
#include "gutil_log.h"
#include "gutil_misc.h"
GLogModule* vh_log_macro_module(void);
int vh_log_macro_enabled(int level);
int vh_log_macro(int k, const char* s, int n, const char** fn);
void vh_log_macro_dump(const void* p, int n);
void vh_log_macro_dump_bytes(GBytes* b);
void __real_gutil_log_assert(const GLogModule* module, int level, const char* expr, const char* file, int line);
time_t __real_time(time_t*);
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_gettimeofday(struct timeval*, void*);
gint64 __real_g_get_real_time(void);
GDateTime* __real_g_date_time_new_now_local(void);
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" void __sanitizer_set_report_fd(void*);
#define SET_REPORT_FD(fd) __sanitizer_set_report_fd((void*)(long)(fd))
#endif
#endif
#ifndef SET_REPORT_FD
#define SET_REPORT_FD(fd) (void)0
#endif

namespace {
std::string vfmt(const char* f, va_list va) {
    va_list v2; va_copy(v2, va);
    int n = vsnprintf(NULL, 0, f, v2);
    va_end(v2);
    if (n < 0) return "?";
    std::string s(n + 1, 0);
    vsnprintf(&s[0], n + 1, f, va);
    s.resize(n);
    return s;
}

//--------------------------------------------------------------- interception
struct Msg { int sink; const GLogModule* module; bool has_name; std::string name; int level; std::string text; };
enum { LEGACY = 1, GLOBAL2, OWN, OWN2, SYSLOG, GLIB };
std::vector<Msg> got;
pthread_mutex_t got_mutex = PTHREAD_MUTEX_INITIALIZER;
int opens, closes;
time_t fake_main_time = -1;
__thread time_t fake_thread_time = -1;
#define fake_time (*(fake_thread_time == (time_t)-1 ? &fake_main_time : &fake_thread_time))

void add(int sink, const GLogModule* m, const char* name, int level, const std::string& text) {
    pthread_mutex_lock(&got_mutex);
    got.push_back({ sink, m, name != NULL, name ? name : "", level, text });
    pthread_mutex_unlock(&got_mutex);
}
// A handler may log something of its own before it gets to its arguments
std::function<void()> on_message;
void nest() { if (on_message) { const int e = errno; std::function<void()> fn; fn.swap(on_message); fn(); errno = e; } }
void legacy(const char* name, int level, const char* f, va_list va) { nest(); add(LEGACY, NULL, name, level, vfmt(f, va)); }
void global2(const GLogModule* m, int level, const char* f, va_list va) { nest(); add(GLOBAL2, m, m ? m->name : NULL, level, vfmt(f, va)); }
void own(const GLogModule* m, int level, const char* f, va_list va) { nest(); add(OWN, m, m ? m->name : NULL, level, vfmt(f, va)); }
void own2(const GLogModule* m, int level, const char* f, va_list va) { nest(); add(OWN2, m, m ? m->name : NULL, level, vfmt(f, va)); }
void glib_hook(const char* domain, GLogLevelFlags level, const char* msg) { nest(); add(GLIB, NULL, domain, (int)level, msg); }
}
extern "C" void __wrap_vsyslog(int prio, const char* f, va_list va) { nest(); add(SYSLOG, NULL, NULL, prio, vfmt(f, va)); }
extern "C" void __wrap_syslog(int prio, const char* f, ...) { nest(); va_list va; va_start(va, f); add(SYSLOG, NULL, NULL, prio, vfmt(f, va)); va_end(va); }
extern "C" void __wrap_openlog(const char*, int, int) { opens++; }
extern "C" void __wrap_closelog(void) { closes++; }
extern "C" time_t __wrap_time(time_t* t) { if (fake_time == (time_t)-1) return __real_time(t); if (t) *t = fake_time; return fake_time; }
// The other ways of finding out what time it is
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec* ts)
{
    if (fake_time == (time_t)-1 || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return __real_clock_gettime(c, ts);
    ts->tv_sec = fake_time; ts->tv_nsec = 0;
    return 0;
}
extern "C" int __wrap_gettimeofday(struct timeval* tv, void* tz)
{
    if (fake_time == (time_t)-1) return __real_gettimeofday(tv, tz);
    tv->tv_sec = fake_time; tv->tv_usec = 0;
    return 0;
}
extern "C" gint64 __wrap_g_get_real_time(void) { return fake_time == (time_t)-1 ? __real_g_get_real_time() : (gint64)fake_time * G_USEC_PER_SEC; }
extern "C" GDateTime* __wrap_g_date_time_new_now_local(void) { return fake_time == (time_t)-1 ? __real_g_date_time_new_now_local() : g_date_time_new_from_unix_local(fake_time); }

namespace {
GLogProc2 default_func2;
struct Globals {        // restores the configuration
    GLogModule def; GLogProc f; GLogProc2 f2;
    Globals() : def(gutil_log_default), f(gutil_log_func), f2(gutil_log_func2) {
        got.clear(); got.shrink_to_fit();
        fake_time = -1; gutil_log_timestamp = FALSE; gutil_log_tid = FALSE;
        gutil_log_default.level = GLOG_LEVEL_NONE; gutil_log_default.flags = 0; gutil_log_default.name = NULL; gutil_log_default.log_proc = NULL;
    }
    ~Globals() {
        gutil_log_default.name = def.name; gutil_log_default.level = def.level; gutil_log_default.flags = def.flags; gutil_log_default.log_proc = def.log_proc;
        gutil_log_func = f; gutil_log_func2 = f2; gutil_log_timestamp = FALSE; gutil_log_tid = FALSE; fake_time = -1;
        gutil_log_set_timestamp_format(NULL);
        vh_glib_log_hook = NULL; on_message = NULL;
        std::vector<Msg>().swap(got);
    }
};

// Redirects stdout or stderr to a file
struct Capture {
    FILE* out; int fd, saved; off_t pos;
    Capture(FILE* f) : out(f), pos(0) {
        fd = memfd_create("log", MFD_CLOEXEC);
        if (fd < 0) vh_fail("harness", "memfd_create");
        fcntl(fd, F_SETFL, O_APPEND);
        fflush(out);
        saved = fcntl(fileno(out), F_DUPFD_CLOEXEC, 3);
        SET_REPORT_FD(saved);
        dup2(fd, fileno(out));
    }
    std::string take() {
        fflush(out);
        struct stat st;
        fstat(fd, &st);
        std::string s(st.st_size - pos, 0);
        size_t done = 0;
        while (done < s.size()) { ssize_t n = pread(fd, &s[done], s.size() - done, pos + done); if (n <= 0) break; done += n; }
        if (done != s.size()) vh_fail("harness", "short read");
        pos = st.st_size;
        return s;
    }
    ~Capture() { fflush(out); dup2(saved, fileno(out)); SET_REPORT_FD(2); close(saved); close(fd); }
};

//--------------------------------------------------------------------- messages
struct Text { std::string s; int kind; int i; long long ll; unsigned u; double d; std::string expected, format; };
std::string printable(Rng& r, size_t n) {
    std::string s(n, 'x');
    static const char odd[] = "%% %s%n[]:\"\\\t\x7f\xc3\xa9\xff";
    for (char& c : s) c = r.pct(85) ? (char)(' ' + r.below(95)) : odd[r.below(sizeof(odd) - 1)];
    return s;
}
size_t length(Rng& r, bool thorough) {
    switch (r.below(11)) {
    case 10: return r.size(10000);
    case 0: return r.below(3);
    case 1: case 2: return 495 + r.below(40);
    case 3: return 1000 + r.below(60);
    case 4: return r.below(9000);
    case 5: return r.pct(thorough ? 30 : 5) ? 60000 + r.below(10000) : r.below(5000);
    default: return r.below(120);
    }
}
Text make_text(Rng& r, bool thorough) {
    Text t; t.s = printable(r, length(r, thorough)); t.kind = (int)r.below(11); t.i = r.int32(); t.ll = (long long)r.bits64(); t.u = (unsigned)r.next(); t.d = (double)r.int32() / 8;
    char b[400];
    switch (t.kind) {
    case 1: t.expected = t.s; break;
    case 2: snprintf(b, sizeof(b), "%d:", t.i); t.expected = b + t.s; snprintf(b, sizeof(b), ":%lld %%", t.ll); t.expected += b; break;
    case 3: snprintf(b, sizeof(b), "%08x|%g|", t.u, t.d); t.expected = b + t.s; break;
    case 4: snprintf(b, sizeof(b), "|%-7d%+lld%c", t.i, t.ll, 'q'); t.expected = t.s + b; break;
    case 5: { const int p = (int)(t.u % 700); t.u = p; t.expected = "<" + t.s.substr(0, p) + ">"; break; }
    case 6: { t.i = 1 + (int)r.below(130); t.expected = t.s + "|" + strerror(t.i); CNT("errno_text"); break; }
    case 7: snprintf(b, sizeof(b), ":%d", t.i); t.expected = t.s + b; CNT("positional_arguments"); break;
    case 8: {   // The text is in the format
        const size_t at = r.below(t.s.size() + 1);
        for (size_t i = 0; i < t.s.size(); i++) {
            if (i == at) { t.format += "%d"; t.expected += std::to_string(t.i); }
            if (t.s[i] == '%') t.format += '%';
            t.format += t.s[i];
            t.expected += t.s[i];
        }
        CNT("text_in_format");
        break; }
    case 9: {   // More arguments than there are registers
        t.i %= 1000; t.u %= 20;
        std::string a; char x[512];
        snprintf(x, sizeof(x), "%d %lld %u %c %x %ld %hhu %g %g %g %g %g %g %g %g %g %g|%.3Lf|%*d|%zu|%p|", t.i, t.ll, t.u, 'z', t.u, (long)t.ll, (unsigned char)t.u, t.d, t.d + 1, t.d + 2, t.d + 3, t.d + 4, t.d + 5, t.d + 6, t.d + 7, t.d + 8, t.d + 9, (long double)t.i / 4, (int)t.u, t.i, (size_t)t.ll, (void*)(size_t)t.u);
        t.expected = x + t.s;
        CNT("many_arguments");
        break; }
    default: t.expected = "constant text 100%"; break;
    }
    return t;
}
// The same format and arguments for every function with a format
#define CALL_WITH_TEXT(t, CALL) do { \
    switch ((t).kind) { \
    case 1: CALL("%s", (t).s.c_str()); break; \
    case 2: CALL("%d:%s:%lld %%", (t).i, (t).s.c_str(), (t).ll); break; \
    case 3: CALL("%08x|%g|%s", (t).u, (t).d, (t).s.c_str()); break; \
    case 4: CALL("%s|%-7d%+lld%c", (t).s.c_str(), (t).i, (t).ll, 'q'); break; \
    case 5: CALL("<%.*s>", (int)(t).u, (t).s.c_str()); break; \
    case 6: errno = (t).i; CALL("%s|%m", (t).s.c_str()); break; \
    case 7: CALL("%2$s:%1$d", (t).i, (t).s.c_str()); break; \
    case 8: CALL((t).format.c_str(), (t).i); break; \
    case 9: CALL("%d %lld %u %c %x %ld %hhu %g %g %g %g %g %g %g %g %g %g|%.3Lf|%*d|%zu|%p|%s", (t).i, (t).ll, (t).u, 'z', (t).u, (long)(t).ll, (unsigned char)(t).u, (t).d, (t).d + 1, (t).d + 2, (t).d + 3, (t).d + 4, (t).d + 5, (t).d + 6, (t).d + 7, (t).d + 8, (t).d + 9, (long double)(t).i / 4, (int)(t).u, (t).i, (size_t)(t).ll, (void*)(size_t)(t).u, (t).s.c_str()); break; \
    default: CALL("constant text 100%%"); break; \
    } } while (0)
void call_proc(GLogProc p, const char* name, int level, const char* f, ...) { va_list va; va_start(va, f); p(name, level, f, va); va_end(va); }
void call_proc2(GLogProc2 p, const GLogModule* m, int level, const char* f, ...) { va_list va; va_start(va, f); p(m, level, f, va); va_end(va); }
void call_logv(const GLogModule* m, int level, const char* f, ...) { va_list va; va_start(va, f); gutil_logv(m, level, f, va); va_end(va); }

// GLogModule has a constant member
GLogModule* new_module(const char* name, const GLogModule* parent) {
    const GLogModule init = { name, parent, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_INHERIT, 0, 0 };
    GLogModule* m = (GLogModule*)malloc(sizeof(GLogModule));
    memcpy((void*)m, &init, sizeof(init));
    return m;
}
int odd_level(Rng& r) {
    static const int odd[] = { 8, 100, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 0x7ffffffe, 0x7fffffff, (int)0x80000000, (int)0x80000001, -3, -100, -254, -32768, -65535 };
    return r.pct(70) ? odd[r.below(G_N_ELEMENTS(odd))] : r.int32();
}
int any_level(Rng& r) { return r.pct(4) ? odd_level(r) : (int)r.range(-3, 7); }

//-------------------------------------------------------------------------- C18
struct Filter {
    Case& c; Rng& r;
    std::vector<GLogModule*> mods; std::vector<std::string> names;
    Filter(Case& c_) : c(c_), r(c_.r) {}
    bool enabled(const GLogModule* m, int level) {
        if (!m) m = &gutil_log_default;
        for (;; m = m->parent) {
            if (m->flags & GLOG_FLAG_DISABLE) { CNT("disabled_on_the_path"); return false; }
            if (m->level != GLOG_LEVEL_INHERIT || !m->parent) break;
            CNT("inherited");
        }
        const int max = m->level == GLOG_LEVEL_INHERIT ? gutil_log_default.level : m->level;
        return level == GLOG_LEVEL_ALWAYS || (level > 0 && level <= max);
    }
    int deflevel() { return r.pct(10) ? GLOG_LEVEL_INHERIT : some_level(); }
    int some_level() { if (!r.pct(5)) return (int)r.range(0, 6); CNT("odd_levels"); return odd_level(r); }
    void mutate() {
        GLogModule* m = r.pct(15) ? &gutil_log_default : r.pick(mods);
        switch (r.below(6)) {
        case 0: case 1: m->level = m == &gutil_log_default ? deflevel() : r.pct(50) ? GLOG_LEVEL_INHERIT : some_level(); break;
        case 2: m->flags = r.pct(70) ? 0 : (int)r.below(4); break;
        case 3: m->log_proc = r.pct(60) ? NULL : r.pct(50) ? own : own2; break;
        case 4: gutil_log_func = r.pct(15) ? NULL : legacy; break;
        case 5: gutil_log_func2 = r.pct(10) ? NULL : r.pct(60) ? default_func2 : global2; break;
        }
    }
    // What is expected to be delivered
    void expect(const GLogModule* m, int level, const std::string& text, const char* what, bool en) {
        const GLogModule* x = m ? m : &gutil_log_default;
        bool ambiguous = !gutil_log_func2 && x->log_proc;       // nothing to deliver to in general, except for this module
        bool deliver = en && gutil_log_func2;
        int sink = !x->log_proc ? (gutil_log_func2 == global2 ? GLOBAL2 : LEGACY) : x->log_proc == own ? OWN : OWN2;
        if (sink == LEGACY && !gutil_log_func) deliver = false;
        if (ambiguous) { got.clear(); return; }
        CHECK_EQ(got.size(), (size_t)(deliver ? 1 : 0), what);
        if (deliver) {
            const Msg& g = got[0];
            CHECK_EQ(g.sink, sink, what);
            CHECK_EQ(g.level, level, what);
            CHECK(g.text == text, "%s: text is %s, expected %s", what, vh_quote(g.text.c_str()).c_str(), vh_quote(text.c_str()).c_str());
            if (sink == LEGACY) {
                const char* name = (x->flags & GLOG_FLAG_HIDE_NAME) ? NULL : x->name;
                CHECK(g.has_name == (name != NULL) && (!name || g.name == name), "%s: name is %s", what, g.has_name ? g.name.c_str() : "NULL");
                if (x->flags & GLOG_FLAG_HIDE_NAME) CNT("hidden_name");
                CNT("delivered_legacy");
            } else {
                CHECK(g.module == x, "%s: wrong module", what);
                if (sink == GLOBAL2) CNT("delivered_global"); else CNT("delivered_own");
            }
            vh_nontrivial();
        } else CNT("not_delivered");
        got.clear();
        vh_mix(deliver);
    }
    void run() {
        Globals g;
        gutil_log_func = legacy;
        const bool deep = r.pct(4);
        const int n = 1 + (int)r.below(deep ? 80 : 6);
        if (n > 20) CNT("deep");
        names.reserve(n);
        for (int i = 0; i < n; i++) {
            names.push_back("module" + std::to_string(i));
            mods.push_back(new_module(r.pct(5) ? NULL : names[i].c_str(), mods.size() && r.pct(deep ? 97 : 75) ? (deep ? mods.back() : r.pick(mods)) : r.pct(10) ? &gutil_log_default : NULL));
            if (r.pct(deep ? 3 : 60)) mods[i]->level = (int)r.range(0, 6);
        }
        GLogModule* mm = vh_log_macro_module();
        mods.push_back(mm);
        gutil_log_default.level = deflevel();
        const int steps = 20 + (int)r.below(40);
        for (int i = 0; i < steps; i++) {
            if (r.pct(50)) mutate();
            const GLogModule* m = r.pct(15) ? NULL : r.pick(mods);
            const int level = any_level(r);
            const bool en = enabled(m, level);
            vh_op("module %d level %d default %d path %s", m ? (int)(std::find(mods.begin(), mods.end(), m) - mods.begin()) : -1, level, gutil_log_default.level, path(m).c_str());
            const gboolean e = gutil_log_enabled(m, level);
            if (gutil_log_func2) CHECK_EQ(e ? 1 : 0, en ? 1 : 0, "enabled");
            else if (!(m ? m : &gutil_log_default)->log_proc) CHECK(!e, "enabled without a back end");
            CHECK(got.empty(), "the query produces messages");
            std::string inner; bool nested = false;
            if (r.pct(20)) {
                const GLogModule* m2 = r.pct(40) ? m : r.pct(15) ? NULL : r.pick(mods);
                const int level2 = r.pct(50) ? level : any_level(r);
                const bool en2 = enabled(m2, level2);
                inner = printable(r, length(r, false));
                on_message = [&, m2, level2, en2] {
                    std::vector<Msg> saved; saved.swap(got);
                    nested = true;
                    CHECK_EQ(gutil_log_enabled(m2, level2) ? 1 : 0, en2 ? 1 : 0, "enabled in a handler");
                    gutil_log(m2, level2, "%s", inner.c_str());
                    expect(m2, level2, inner, "nested", en2);
                    got.swap(saved);
                };
            }
            switch (r.below(6)) {
            case 0: case 1: { Text t = make_text(r, false);
                #define CALL(f, args...) gutil_log(m, level, f, ##args)
                CALL_WITH_TEXT(t, CALL);
                #undef CALL
                expect(m, level, t.expected, "gutil_log", en); CNT("gutil_log"); break; }
            case 2: { Text t = make_text(r, false);
                #define CALL(f, args...) call_logv(m, level, f, ##args)
                CALL_WITH_TEXT(t, CALL);
                #undef CALL
                expect(m, level, t.expected, "gutil_logv", en); CNT("gutil_logv"); break; }
            case 3: case 4: { const int k = (int)r.below(10), v = r.int32(); const char* fn = NULL;
                const std::string s = printable(r, r.below(50));
                const int lvl = vh_log_macro(k, s.c_str(), v, &fn);
                static const int macro_level[] = { 1, 2, 3, 4, 5 };
                CHECK_EQ(lvl, macro_level[k % 5], "level of the macro");
                expect(mm, lvl, (k < 5 ? "" : std::string(fn) + "() ") + s + " " + std::to_string(v), "macro", enabled(mm, lvl));
                if (gutil_log_func2) CHECK_EQ(vh_log_macro_enabled(level) ? 1 : 0, enabled(mm, level) ? 1 : 0, "GLOG_ENABLED");
                CNT("macros"); break; }
            case 5: { const bool lit = r.pct(30); const std::string x = lit ? "a == b" : printable(r, r.size(600)), f = lit ? "file.c" : printable(r, r.size(600)); const int line = lit ? 42 : r.pct(50) ? (int)r.below(100) : r.int32();
                __real_gutil_log_assert(m, level, x.c_str(), f.c_str(), line); expect(m, level, "Assert " + x + " failed at " + f + ":" + std::to_string(line), "assert", en); CNT("asserts"); break; }
            }
            on_message = NULL;
            if (nested) CNT("nested");
        }
        mm->level = GLOG_LEVEL_INHERIT; mm->flags = 0; mm->log_proc = NULL;
        mods.pop_back();
        for (GLogModule* m : mods) free((void*)m);
    }
    std::string path(const GLogModule* m) {
        std::string s;
        for (m = m ? m : &gutil_log_default; m; m = m->parent) s += std::to_string(m->level) + "/" + std::to_string(m->flags) + (m->log_proc ? "p " : " ");
        return s;
    }
};

//-------------------------------------------------------------------------- C19
struct BackEnds {
    Case& c; Rng& r; std::string fmt;
    BackEnds(Case& c_) : c(c_), r(c_.r), fmt("%Y-%m-%d %H:%M:%S ") {}
    void set_format() {
        if (r.pct(20)) { gutil_log_set_timestamp_format(NULL); fmt = "%Y-%m-%d %H:%M:%S "; vh_op("default format"); CNT("format_reset"); return; }
        std::string f = r.pct(25) ? fmt : "";
        if (f.empty() && !r.pct(10)) {
            static const char* p[] = { "%Y", "%H:%M:%S", "%d.%m.%y", "%j", " ", "[", "]", "%%", "%s", "%a %b", "%A, %d %B %Y", "literal ", "%Z", "%T.", "-", "%I%p", "%U" };
            for (int n = 1 + (int)r.below(6); n; n--) f += p[r.below(G_N_ELEMENTS(p))];
            if (r.pct(20)) f += std::string(r.below(40), '.');
        }
        fmt = f;
        vh_op("format %s", vh_quote(f.c_str()).c_str());
        Exact e(std::string(f.c_str(), f.size() + 1));
        gutil_log_set_timestamp_format((char*)e.p);
        CNT("format_set");
    }
    std::string stamp() {
        if (!gutil_log_timestamp || fmt.empty()) return "";
        char b[1024]; struct tm tm;
        localtime_r(&fake_time, &tm);
        size_t n = strftime(b, sizeof(b), fmt.c_str(), &tm);
        return std::string(b, n);
    }
    void line(const std::string& s, const char* name, int level, const Text& t, const char* what) {
        std::string tid = gutil_log_tid ? "[" + std::to_string((int)syscall(SYS_gettid)) + "] " : "";
        std::string rest;
        if (name && name[0]) rest += std::string("[") + name + "] ";
        if (level == GLOG_LEVEL_WARN) rest += "WARNING: "; else if (level == GLOG_LEVEL_ERR) rest += "ERROR: ";
        rest += t.expected + "\n";
        const std::string ts = stamp();
        bool ok = s == tid + ts + rest;
        if (ts.size() > 31) { ok = ok || s == tid + rest; CNT("format_overflow"); }
        if (!ok) {
            std::string e = tid + ts + rest;
            size_t i = 0;
            while (i < s.size() && i < e.size() && s[i] == e[i]) i++;
            vh_fail("oracle", "%s: output (%u) differs from expected (%u) at %u: got %s expected %s", what, (unsigned)s.size(), (unsigned)e.size(), (unsigned)i,
                vh_quote(s.c_str() + (i < 20 ? 0 : i - 20)).c_str(), vh_quote(e.c_str() + (i < 20 ? 0 : i - 20)).c_str());
        }
        if (ts.size()) CNT("with_timestamp");
        if (tid.size()) CNT("with_tid");
        if (t.expected.size() > 511) CNT("long_messages");
        vh_mix_buf(rest.data(), rest.size());
    }
    void run() {
        Globals g;
        vh_glib_log_hook = glib_hook;
        static bool tz;
        if (!tz) { setenv("TZ", "XYZ-5:30", 1); tzset(); tz = true; }
        const int steps = 10 + (int)r.below(15);
        const bool err = r.pct(50);
        Capture cap(err ? stderr : stdout);
        for (int i = 0; i < steps; i++) {
            switch (r.below(5)) {
            case 0: set_format(); break;
            case 1: gutil_log_timestamp = r.truth(r.pct(60)); break;
            case 2: gutil_log_tid = r.truth(r.pct(40)); break;
            case 3: fake_time = (time_t)r.below(r.pct(85) ? 0x7fffffff : 0x3ffffffff); break;
            }
            if (fake_time == (time_t)-1) fake_time = (time_t)r.below(0x7fffffff);
            Text t = make_text(r, c.thorough);
            const int level = any_level(r);
            std::string nm = r.pct(80) ? printable(r, r.below(15)) : printable(r, r.below(600));
            const char* name = r.pct(20) ? NULL : nm.c_str();
            GLogModule* m = new_module(name, NULL);
            const bool two = r.pct(30);
            const GLogModule* mp = r.pct(10) ? NULL : m;
            if (two && !mp) name = NULL;
            const int sink = (int)r.below(5);
            vh_op("sink %d level %d name %u text %u/%d tid %d ts %d proc2 %d", sink, level, (unsigned)nm.size(), (unsigned)t.expected.size(), t.kind, gutil_log_tid, gutil_log_timestamp, two);
            static const GLogProc p[2][3] = { { gutil_log_stdout, gutil_log_syslog, gutil_log_glib }, { gutil_log_stderr, gutil_log_syslog, gutil_log_glib } };
            static const GLogProc2 p2[2][3] = { { gutil_log_stdout2, gutil_log_syslog2, gutil_log_glib2 }, { gutil_log_stderr2, gutil_log_syslog2, gutil_log_glib2 } };
            const int k = sink < 3 ? 0 : sink - 2;
            const bool same_name = r.pct(15);
            if (same_name && !(two && !mp)) gutil_log_default.name = r.pct(50) ? name : "other";
            std::string s2; Text t2;
            if (k && r.pct(30)) {
                t2 = make_text(r, c.thorough);
                on_message = [&] {
                    const GLogProc fn = err ? gutil_log_stderr : gutil_log_stdout;
                    #define CALL(f, args...) call_proc(fn, "nested", level, f, ##args)
                    CALL_WITH_TEXT(t2, CALL);
                    #undef CALL
                    s2 = cap.take();
                    line(s2, "nested", level, t2, "nested");
                    CNT("nested");
                };
            }
            #define CALL(f, args...) do { if (two) call_proc2(p2[err][k], mp, level, f, ##args); else call_proc(p[err][k], name, level, f, ##args); } while (0)
            CALL_WITH_TEXT(t, CALL);
            #undef CALL
            const std::string s = cap.take();
            if (k == 0) {
                line(s, name, level, t, err ? "stderr" : "stdout");
                CHECK(got.empty(), "message went elsewhere");
                if (err) CNT("stderr"); else CNT("stdout");
            } else {
                CHECK(s.empty(), "unexpected output");
                CHECK_EQ(got.size(), (size_t)1, "number of messages");
                const Msg& q = got[0];
                if (k == 1) {
                    const int prio = level == 1 ? LOG_ERR : level == 2 ? LOG_WARNING : level == 4 ? LOG_INFO : level == 5 ? LOG_DEBUG : LOG_NOTICE;
                    std::string e;
                    if (gutil_log_tid) e += "[" + std::to_string((int)syscall(SYS_gettid)) + "] ";
                    if (name && name[0] && g_strcmp0(name, gutil_log_default.name)) e += std::string("[") + name + "] ";
                    if (level == 1) e += "ERROR! "; else if (level == 2) e += "WARNING! ";
                    e += t.expected;
                    CHECK_EQ(q.sink, (int)SYSLOG, "sink");
                    CHECK_EQ(q.level, prio, "syslog priority");
                    CHECK(q.text == e, "syslog: %s (%u) expected %s (%u)", vh_quote(q.text.c_str()).c_str(), (unsigned)q.text.size(), vh_quote(e.c_str()).c_str(), (unsigned)e.size());
                    CNT("syslog");
                } else {
                    const int lvl = level == 1 ? G_LOG_LEVEL_CRITICAL : level == 2 ? G_LOG_LEVEL_WARNING : level == 4 ? G_LOG_LEVEL_INFO : level == 5 ? G_LOG_LEVEL_DEBUG : G_LOG_LEVEL_MESSAGE;
                    CHECK_EQ(q.sink, (int)GLIB, "sink");
                    CHECK_EQ(q.level, lvl, "glib log level");
                    CHECK(q.has_name == (name != NULL) && (!name || q.name == name), "glib log domain");
                    CHECK(q.text == t.expected, "glib: %s (%u) expected %s (%u)", vh_quote(q.text.c_str()).c_str(), (unsigned)q.text.size(), vh_quote(t.expected.c_str()).c_str(), (unsigned)t.expected.size());
                    CNT("glib");
                }
                got.clear();
            }
            on_message = NULL;
            gutil_log_default.name = NULL;
            free((void*)m);
        }
        // Thread id of a child process
        if (!(c.idx % 23)) {
            gutil_log_tid = TRUE;
            gutil_log_timestamp = FALSE;
            const GLogProc f = err ? gutil_log_stderr : gutil_log_stdout;
            call_proc(f, NULL, 3, "parent");
            std::string s = cap.take();
            CHECK(s == "[" + std::to_string((int)syscall(SYS_gettid)) + "] parent\n", "output of the parent is %s", vh_quote(s.c_str()).c_str());
            const pid_t pid = fork();
            if (!pid) { call_proc(f, NULL, 3, "child"); fflush(err ? stderr : stdout); _exit(0); }
            int st = -1;
            if (pid < 0 || waitpid(pid, &st, 0) != pid || st) vh_fail("harness", "fork %d status %d", (int)pid, st);
            s = cap.take();
            CHECK(s == "[" + std::to_string((int)pid) + "] child\n", "output of the child %d is %s", (int)pid, vh_quote(s.c_str()).c_str());
            CNT("child_process");
        }
        // This can't be converted, whatever is printed has to be one intact line
        if (!(c.idx & 15)) {
            call_proc(err ? gutil_log_stderr : gutil_log_stdout, "x", 3, "[%ls]", L"\x263a");
            const std::string s = cap.take();
            CHECK(!s.empty() && s.find('\n') == s.size() - 1 && s.find("[x] ") != std::string::npos, "unconvertible text: %s", vh_quote(s.c_str()).c_str());
            CNT("unconvertible");
        }
        vh_nontrivial();
    }
};

//-------------------------------------------------------------------------- C20
const char* const level_names[] = { "none", "error", "warning", "info", "debug", "verbose" };
std::string mixcase(Rng& r, std::string s) { for (char& c : s) if (r.pct(40)) c = g_ascii_isupper(c) ? g_ascii_tolower(c) : g_ascii_toupper(c); return s; }
struct Options {
    Case& c; Rng& r;
    std::vector<GLogModule*> mods; std::vector<std::string> names;
    Options(Case& c_) : c(c_), r(c_.r) {}
    std::string level_text(int* value) {
        *value = -1;
        std::string s;
        switch (r.below(12)) {
        case 0: case 1: case 2: *value = (int)r.below(6); return std::to_string(*value);
        case 3: case 4: case 5: case 6: { *value = (int)r.below(6); s = level_names[*value]; return s.substr(0, 1 + r.below(s.size())); }
        case 7: return "";
        case 8: { static const char* x[] = { "6", "9", "-1", "00", "01", "55", " 3", "3 ", "+1", "x", "/", "0x1", "always", "inherit", "noner", "errors", "warnings", "infos", "verbosely", "debug ", " debug", "nerror", "E", "1:", ":", "debug:info", "12" }; return x[r.below(G_N_ELEMENTS(x))]; }
        case 9: { s = level_names[r.below(6)]; s += (char)('a' + r.below(26)); return s; }
        case 10: { s = level_names[r.below(6)]; size_t i = 1 + r.below(s.size()); s = s.substr(0, i); s[i - 1] = (char)('!' + r.below(94)); break; }
        default: s = printable(r, 1 + r.below(4));
        }
        // May happen to be valid
        if (s.size() == 1 && s[0] >= '0' && s[0] <= '5') *value = s[0] - '0';
        else for (int i = 0; i < 6; i++) if (s.size() && !strncmp(level_names[i], s.c_str(), s.size())) { *value = i; break; }
        return s;
    }
    void option() {
        int level;
        std::string lt = level_text(&level), opt = lt;
        int target = -2;            // -1 is the default
        if (opt.find(':') == std::string::npos) target = -1;
        if (r.pct(70)) {
            std::string n = r.pct(75) && names.size() ? mixcase(r, r.pick(names)) : r.pct(30) ? "" : printable(r, r.below(8));
            if (r.pct(15) && n.size()) n = r.pct(50) ? n.substr(0, n.size() - 1) : n + "x";
            opt = n + ":" + lt;
        }
        const size_t sep = opt.find(':');
        if (sep != std::string::npos) {
            const std::string n = opt.substr(0, sep);
            // What follows the first colon is the level
            const std::string rest = opt.substr(sep + 1);
            if (rest != lt) {
                level = -1;
                if (rest.size() == 1 && rest[0] >= '0' && rest[0] <= '5') level = rest[0] - '0';
                else for (int i = 0; i < 6; i++) if (rest.size() && !strncmp(level_names[i], rest.c_str(), rest.size())) { level = i; break; }
            }
            target = -2;
            for (size_t i = 0; i < names.size(); i++) if (names[i].size() == n.size() && !g_ascii_strcasecmp(names[i].c_str(), n.c_str())) { target = (int)i; break; }
        }
        const bool ok = level >= 0 && target >= -1;
        std::vector<int> lv;
        for (GLogModule* m : mods) lv.push_back(m->level);
        int dl = gutil_log_default.level;
        vh_op("option %s", vh_quote(opt.c_str()).c_str());
        GError* error = NULL;
        const bool want = r.pct(70);
        Exact e(std::string(opt.c_str(), opt.size() + 1));
        const gboolean res = gutil_log_parse_option((char*)e.p, mods.empty() ? NULL : mods.data(), (int)mods.size(), want ? &error : NULL);
        CHECK_EQ(res ? 1 : 0, ok ? 1 : 0, "gutil_log_parse_option");
        if (want) CHECK((error != NULL) == !ok, "error is %s", error ? "set" : "not set");
        if (error) { CHECK(error->message && error->message[0], "no error message"); CHECK(error->domain == G_OPTION_ERROR, "error domain"); vh_mix_buf(error->message, strlen(error->message)); g_error_free(error); }
        if (ok) { if (target >= 0) { lv[target] = level; CNT("module_option"); } else { dl = level; CNT("default_option"); } } else CNT("refused_option");
        for (size_t i = 0; i < mods.size(); i++) CHECK(mods[i]->level == lv[i], "%s: level of module %u is %d expected %d", opt.c_str(), (unsigned)i, mods[i]->level, lv[i]);
        CHECK_EQ(gutil_log_default.level, dl, "default level");
        vh_mix(res);
    }
    static const char* intern(const std::string& s) { static std::set<std::string> all; return all.insert(s).first->c_str(); }
    void type() {
        static const char* const types[] = { "stdout", "stderr", "glib", "syslog" };
        static const char* const bad[] = { "", "custom", "stdou", "stdoutx", "file", "std", "sys", "gli", "syslog ", " glib", "std err" };
        const bool unknown = r.pct(20);
        const int k = (int)r.below(4);
        const std::string t = unknown ? bad[r.below(G_N_ELEMENTS(bad))] : mixcase(r, types[k]);
        const char* name = unknown || r.pct(40) ? NULL : intern(r.pct(20) ? "" : r.pct(50) ? printable(r, 1 + r.size(300)) : r.pct(50) ? "some-name" : "other-name");
        const char* before = gutil_log_get_type();
        const char* old = gutil_log_default.name;
        const GLogProc oldf = gutil_log_func;
        vh_op("type %s name %s (was %s)", vh_quote(t.c_str()).c_str(), name ? name : "NULL", before);
        const gboolean ok = gutil_log_set_type(t.c_str(), name);
        CHECK_EQ(ok ? 1 : 0, unknown ? 0 : 1, "gutil_log_set_type");
        if (unknown) {
            CHECK(!strcmp(gutil_log_get_type(), before), "type was %s, now %s", before, gutil_log_get_type());
            CHECK(gutil_log_func == oldf, "log function has changed");
            CNT("refused_type");
        } else {
            CHECK(!strcmp(gutil_log_get_type(), types[k]), "selected %s, reported %s", types[k], gutil_log_get_type());
            CHECK(!g_strcmp0(gutil_log_default.name, name ? name : old), "default name");
            CNT("type_selected");
        }
        static const struct { const char* s; const char* v; } names_[] = { { GLOG_TYPE_STDOUT, "stdout" }, { GLOG_TYPE_STDERR, "stderr" }, { GLOG_TYPE_GLIB, "glib" }, { GLOG_TYPE_SYSLOG, "syslog" }, { GLOG_TYPE_CUSTOM, "custom" } };
        for (auto& x : names_) CHECK(!strcmp(x.s, x.v), "type name %s", x.v);
        message();
    }
    // Is it delivered where it's supposed to go
    void message() {
        const std::string type = gutil_log_get_type();
        const std::string text = printable(r, r.below(30));
        got.clear();
        std::string so, se;
        {
            Capture a(stdout), b(stderr);
            gutil_log(NULL, GLOG_LEVEL_ALWAYS, "%s", text.c_str());
            so = a.take(); se = b.take();
        }
        int sink = 0;
        for (Msg& m : got) { if (sink) vh_fail("oracle", "several messages"); sink = m.sink; CHECK(m.text.find(text) != std::string::npos, "text is lost"); }
        const std::string tail = text + "\n";
        if (so.size()) CHECK(so.size() >= tail.size() && so.substr(so.size() - tail.size()) == tail, "stdout text");
        if (se.size()) CHECK(se.size() >= tail.size() && se.substr(se.size() - tail.size()) == tail, "stderr text");
        CHECK((type == "stdout") == (so.size() > 0), "stdout output with type %s", type.c_str());
        CHECK((type == "stderr") == (se.size() > 0), "stderr output with type %s", type.c_str());
        CHECK((type == "glib") == (sink == GLIB), "glib message with type %s", type.c_str());
        CHECK((type == "syslog") == (sink == SYSLOG), "syslog message with type %s", type.c_str());
        CHECK((type == "custom") == (sink == LEGACY), "custom message with type %s", type.c_str());
        const char* dn = gutil_log_default.name;
        if (dn && dn[0] && so.size() + se.size()) CHECK((so + se).find(std::string("[") + dn + "] ") != std::string::npos, "default name is not there");
        if (dn && sink == GLIB) CHECK(got[0].name == dn, "default name is not there");
        got.clear();
        CNT("routed");
    }
    void description() {
        const bool with = mods.size() && r.pct(80);
        char* d = gutil_log_description(with ? mods.data() : NULL, with ? (int)mods.size() : 0);
        CHECK(d, "no description");
        char** lines = g_strsplit(d, "\n", -1);
        int level = 0; size_t mod = 0;
        for (char** l = lines; *l; l++) {
            char* s = g_strstrip(*l);
            char exp[32];
            if (level < 6) {
                snprintf(exp, sizeof(exp), "%d, %s ", level, level_names[level]);
                if (!strncmp(s, exp, strlen(exp))) level++;
            } else if (with && mod < mods.size() && !strcmp(s, g_strstrip(std::string(names[mod]).data()))) mod++;
        }
        CHECK_EQ(level, 6, "levels in the description");
        if (with) CHECK_EQ(mod, mods.size(), "modules in the description");
        else for (const std::string& n : names) CHECK(n.size() < 10 || !strstr(d, n.c_str()), "modules which were not given are in the description");
        vh_mix_buf(d, 0);
        g_strfreev(lines);
        g_free(d);
        CNT("descriptions");
    }
    // Tens of thousands of modules
    void many() {
        const size_t k = vh_big_size(r);
        std::vector<std::string> nm(k);
        std::vector<GLogModule*> m(k);
        for (size_t i = 0; i < k; i++) { nm[i] = "m" + std::to_string(i); m[i] = new_module(nm[i].c_str(), NULL); m[i]->level = -1; }
        std::vector<int> level(k, -1);
        for (int n = 0; n < 6; n++) {
            const size_t i = n ? r.below(k) : k - 1;
            level[i] = (int)r.below(6);
            vh_op("module %u of %u level %d", (unsigned)i, (unsigned)k, level[i]);
            CHECK(gutil_log_parse_option((nm[i] + ":" + std::to_string(level[i])).c_str(), m.data(), (int)k, NULL), "option is refused");
            CHECK(!gutil_log_parse_option("m00:1", m.data(), (int)k, NULL), "option is accepted");
            for (size_t j = 0; j < k; j++) CHECK_EQ(m[j]->level, level[j], "module level");
        }
        char* d = gutil_log_description(m.data(), (int)k);
        const std::string s = d;
        size_t pos = 0;
        for (size_t i = 0; i < k; i++) { pos = s.find(nm[i], pos); CHECK(pos != std::string::npos, "module %u is not in the description", (unsigned)i); pos += nm[i].size(); CHECK(s[pos] == '\n', "module %u is not in the description", (unsigned)i); }
        g_free(d);
        for (GLogModule* x : m) free((void*)x);
        CNT("many_modules");
    }
    void environment();
    void run() {
        Globals g;
        vh_glib_log_hook = glib_hook;
        for (int n = (int)r.below(r.pct(5) ? 60 : 6); n; n--) {
            std::string s;
            switch (r.below(4)) {
            case 0: s = "mod"; break;
            case 1: s = names.size() ? r.pick(names) + "2" : "Module"; break;
            case 2: s = names.size() ? r.pick(names).substr(0, 2) : "ab"; break;
            default: for (int k = 3 + (int)r.below(r.pct(5) ? 300 : 12); k; k--) s += (char)('a' + r.below(26)); s = mixcase(r, s);
            }
            bool dup = false;
            for (const std::string& x : names) dup |= !g_ascii_strcasecmp(x.c_str(), s.c_str());
            if (!dup) names.push_back(s);
        }
        for (const std::string& s : names) mods.push_back(new_module(s.c_str(), NULL));
        for (GLogModule* m : mods) if (r.pct(50)) m->level = (int)r.range(-1, 6);
        gutil_log_default.level = (int)r.range(-1, 5);
        for (int n = 10 + (int)r.below(20); n; n--) {
            switch (r.below(10)) {
            default: option(); break;
            case 7: case 8: if (r.pct(25)) { gutil_log_func = legacy; CHECK(!strcmp(gutil_log_get_type(), "custom"), "custom type is reported as %s", gutil_log_get_type()); CNT("custom"); } type(); break;
            case 9: description(); break;
            }
        }
        if (!(c.idx % 61)) environment();
        if (vh_big(c, 4001)) many();
        for (GLogModule* m : mods) free((void*)m);
        vh_nontrivial();
    }
};
//  Runs itself with different environments
int env_fd = -1;
void print_initial() { dprintf(1, "\ninitial %d %d %d\n", vh_log_initial[0], vh_log_initial[1], vh_log_initial[2]); }
VH_SCENARIO(C20, "log-env", print_initial);
struct Num { const char* s; bool valid; long v; };
const Num nums[] = {
    { "0", true, 0 }, { "1", true, 1 }, { "2", true, 2 }, { "3", true, 3 }, { "4", true, 4 }, { "5", true, 5 }, { "-1", true, -1 }, { " 2", true, 2 }, { "0x3", true, 3 }, { "2147483647", true, 2147483647 },
    { "-2", true, -2 }, { "-2147483648", true, -2147483647L - 1 }, { "", false, 0 }, { "x", false, 0 }, { "3x", false, 0 }, { "debug", false, 0 }, { "2147483648", false, 0 }, { "4294967296", false, 0 }, { "1 1", false, 0 }, { "true", false, 0 }, { "-", false, 0 }
};
void Options::environment() {
    static int def[3]; static bool have;
    static const char* const vars[] = { "GUTIL_LOG_DEFAULT_LEVEL", "GUTIL_LOG_TIMESTAMP", "GUTIL_LOG_TID" };
    for (int round = have ? 1 : 0; round < 2; round++) {
        std::vector<std::string> env;
        env.push_back("ASAN_OPTIONS=detect_leaks=0");
        int exp[3];
        memcpy(exp, def, sizeof(exp));
        if (round) for (int i = 0; i < 3; i++) {
            if (r.pct(20)) continue;
            const Num& n = nums[r.below(G_N_ELEMENTS(nums))];
            env.push_back(std::string(vars[i]) + "=" + n.s);
            if (n.valid && n.v >= (i ? 0 : -1)) { exp[i] = i ? n.v > 0 : (int)n.v; CNT("env_valid"); } else CNT("env_invalid");
        }
        std::string what;
        for (auto& s : env) what += s + " ";
        int pp[2];
        if (pipe2(pp, O_CLOEXEC)) vh_fail("harness", "pipe");
        char self[4096], a1[] = "--scenario", a2[] = "log-env";
        const ssize_t sl = readlink("/proc/self/exe", self, sizeof(self) - 1);     // Not the link: that's valgrind
        if (sl < 0) vh_fail("harness", "readlink");
        self[sl] = 0;
        char* argv[] = { self, a1, a2, NULL };
        std::vector<char*> ev;
        for (auto& s : env) ev.push_back((char*)s.c_str());
        ev.push_back(NULL);
        posix_spawn_file_actions_t fa;
        posix_spawn_file_actions_init(&fa);
        posix_spawn_file_actions_adddup2(&fa, pp[1], 1);
        pid_t pid;
        if (posix_spawn(&pid, self, &fa, NULL, argv, ev.data())) vh_fail("harness", "posix_spawn");
        posix_spawn_file_actions_destroy(&fa);
        close(pp[1]);
        std::string out;
        char b[512];
        ssize_t n;
        while ((n = read(pp[0], b, sizeof(b))) > 0) out.append(b, n);
        close(pp[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        CHECK(WIFEXITED(st) && !WEXITSTATUS(st), "process failed with %s", what.c_str());
        int v[3];
        const size_t pos = out.rfind("\ninitial ");
        if (pos == std::string::npos || sscanf(out.c_str() + pos, " initial %d %d %d", v, v + 1, v + 2) != 3) vh_fail("harness", "output is %s", vh_quote(out.c_str()).c_str());
        if (!round) { memcpy(def, v, sizeof(def)); have = true; CHECK(def[1] == 0 && def[2] == 0, "timestamp or thread id are on by default"); CHECK(def[0] >= 0 && def[0] <= 5, "default level %d", def[0]); }
        else for (int i = 0; i < 3; i++) CHECK(v[i] == exp[i], "%s is %d expected %d in %s", vars[i], v[i], exp[i], what.c_str());
        CNT("env_processes");
    }
}

//-------------------------------------------------------------------------- C21
std::string dump_line(const u8* p, size_t n) {
    std::string s;
    for (size_t i = 0; i < 16; i++) {
        if (i) s += i == 8 ? "  " : " ";
        char b[3] = "  ";
        if (i < n) snprintf(b, sizeof(b), "%02x", p[i]);
        s += b;
    }
    s += "    ";
    for (size_t i = 0; i < n && i < 16; i++) { if (i == 8) s += ' '; s += p[i] >= 32 && p[i] < 127 ? (char)p[i] : '.'; }
    return s;
}
jmp_buf dump_jump; int dump_count;
void dump_few(const GLogModule* m, int level, const char* f, va_list va) { global2(m, level, f, va); if (++dump_count == 4) longjmp(dump_jump, 1); }
void dump_case(Case& c)
{
    Rng& r = c.r;
    Globals g;
    gutil_log_func = legacy;
    static const char* const types[] = { "all values", "text", "random", "zeros" };
    for (int k = 0; k < 6; k++) {
        const int type = (int)r.below(4);
        const size_t n = k < 3 ? r.below(40) : !(c.idx % 400) && k == 3 ? 65500 + r.below(300) : r.size(r.pct(c.thorough ? 10 : 2) ? 70000 : 700);
        std::vector<u8> v(n);
        for (size_t i = 0; i < n; i++) v[i] = type == 0 ? (u8)(i + k * 37) : type == 1 ? ' ' + r.below(95) : type == 2 ? (u8)r.next() : 0;
        ExactAt e(v.data(), n, r.below(8));
        vh_op("%s %u bytes", types[type], (unsigned)n);
        for (u8 b : v) vh_key(b);
        if (k < 3) {
            char* buf = (char*)malloc(GUTIL_HEXDUMP_BUFSIZE);
            memset(buf, 0x55, GUTIL_HEXDUMP_BUFSIZE);
            const guint done = gutil_hexdump(buf, e.p, (guint)n);
            CHECK_EQ(done, (guint)MIN(n, 16), "number of bytes dumped");
            CHECK(memchr(buf, 0, GUTIL_HEXDUMP_BUFSIZE), "not terminated");
            const std::string x = dump_line(v.data(), n);
            // The text may be padded
            CHECK(!strncmp(buf, x.c_str(), x.size()) && strspn(buf + x.size(), " ") == strlen(buf + x.size()), "hex dump of %s is %s", vh_hex(v).c_str(), vh_quote(buf).c_str());
            vh_mix_buf(buf, x.size());
            free(buf);
            CNT("lines");
            if (n < 16) CNT("short_lines");
            continue;
        }
        GLogModule* m = r.pct(20) ? NULL : new_module("dump", NULL);
        GLogModule* mm = m ? m : &gutil_log_default;
        const int level = any_level(r);
        mm->level = r.pct(4) ? odd_level(r) : (int)r.range(0, 6);
        const std::string random_prefix = printable(r, r.pct(80) ? r.below(40) : r.size(600));
        const char* prefix = r.pct(30) ? NULL : r.pct(30) ? "prefix> " : r.pct(60) ? random_prefix.c_str() : "";
        const bool en = gutil_log_enabled(m, level);
        int how = (int)r.below(4);
        if (how == 0 && !n) how = 1;
        vh_op("how %d level %d of %d prefix %s", how, level, mm->level, prefix ? prefix : "NULL");
        bool expect = en; int lvl = level; const char* pf = prefix ? prefix : ""; const GLogModule* em = mm;
        switch (how) {
        case 0: case 1: gutil_log_dump(m, level, prefix, n || r.pct(50) ? e.p : NULL, n); break;
        case 2: { GBytes* b = g_bytes_new_static(e.p, n); gutil_log_dump_bytes(m, level, prefix, b); g_bytes_unref(b); break; }
        case 3: {
            em = vh_log_macro_module(); pf = ""; lvl = GLOG_LEVEL_DEBUG;
            ((GLogModule*)em)->level = (int)r.range(0, 6);
            expect = em->level >= 4;
            if (r.pct(50)) vh_log_macro_dump(e.p, (int)n);
            else { GBytes* b = g_bytes_new_static(e.p, n); vh_log_macro_dump_bytes(b); g_bytes_unref(b); }
            ((GLogModule*)em)->level = GLOG_LEVEL_INHERIT;
            CNT("macros");
            break; }
        }
        CHECK_EQ(got.size(), expect ? (n + 15) / 16 : 0, "number of lines");
        for (size_t i = 0; i < got.size(); i++) {
            char off[64];
            snprintf(off, sizeof(off), "%04lX: ", (unsigned long)(i * 16));
            const std::string x = std::string(pf) + off + dump_line(v.data() + i * 16, MIN(16, n - i * 16));
            CHECK(got[i].text.compare(0, x.size(), x) == 0 && got[i].text.find_first_not_of(' ', x.size()) == std::string::npos, "line %u is %s expected %s", (unsigned)i, vh_quote(got[i].text.c_str(), 100).c_str(), vh_quote(x.c_str(), 100).c_str());
            CHECK_EQ(got[i].level, lvl, "level of the line");
            CHECK(got[i].has_name == (em->name != NULL) && (!em->name || got[i].name == em->name), "module of the line");
        }
        if (expect) CNT("dumps"); else CNT("disabled_dumps");
        if (expect && n > 65536) CNT("large_dumps");
        CNTN("dumped_lines", got.size());
        got.clear();
        if (m) free((void*)m);
    }
    // More than 4G. Nobody is going to look beyond the first few lines
    if (!(c.idx & 255)) {
        const size_t size = (4UL << 30) + r.below(3);
        u8* p = (u8*)mmap(NULL, size + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p != MAP_FAILED) {
            mprotect(p, 4096, PROT_READ | PROT_WRITE);
            // A single line of it
            static const guint lens[] = { 255, 256, 257, 4096, 65535, 65536, 65537, 65552, 0x7fffffff, 0x80000000u, 0x80000001u, 0x80000010u, 0xfffffff0u, 0xfffffffeu, 0xffffffffu };
            for (int i = 0; i < 4; i++) {
                const guint len = r.pct(80) ? lens[r.below(G_N_ELEMENTS(lens))] : 16 + (guint)r.next() % 0xfffffff0u;
                char buf[GUTIL_HEXDUMP_BUFSIZE];
                for (int k = 0; k < 16; k++) p[4080 + k] = (u8)r.next();
                vh_op("line of %u", len);
                const guint done = gutil_hexdump(buf, p + 4080, len);
                CHECK(done == 16, "%u bytes of %u are dumped", done, len);
                const std::string x = dump_line(p + 4080, 16);
                CHECK(!strncmp(buf, x.c_str(), x.size()) && strspn(buf + x.size(), " ") == strlen(buf + x.size()), "hex dump of %u bytes is %s", len, vh_quote(buf).c_str());
                CNT("lines_of_large_blocks");
            }
            mprotect(p, 4096, PROT_READ);
            gutil_log_func2 = dump_few;
            dump_count = 0;
            if (!setjmp(dump_jump)) gutil_log_dump(NULL, GLOG_LEVEL_ALWAYS, "", p, size);
            CHECK_EQ(dump_count, 4, "number of lines of a huge dump");
            for (size_t i = 0; i < got.size(); i++) { char off[32]; snprintf(off, sizeof(off), "%04X: 00 ", (unsigned)i * 16); CHECK(!strncmp(got[i].text.c_str(), off, strlen(off)), "line %u of a huge dump is %s", (unsigned)i, got[i].text.c_str()); }
            munmap(p, size + 4096);
            CNT("huge_dumps");
        }
    }
    vh_nontrivial();
}

//-------------------------------------------------------------------------- C34
struct Thread { int id, count; u64 seed; time_t when, step; int tid; bool err; pthread_t t; pthread_barrier_t* bar; };
// Some of the messages are one line dumps
bool thread_dump(int k) { return k % 7 == 3; }
std::string thread_prefix(const Thread& t, int k) { return "T" + std::to_string(t.id) + " #" + std::to_string(k) + " "; }
std::vector<u8> thread_data(const Thread& t, int k) { Rng r(t.seed + k * 7919); std::vector<u8> v(1 + r.below(16)); for (u8& b : v) b = (u8)((t.id * 37 + r.below(32)) & 0x7f); return v; } // which bytes above are printable depends on the locale
std::string thread_text(const Thread& t, int k) {
    Rng r(t.seed + k * 7919);
    std::string s = thread_prefix(t, k);
    if (thread_dump(k)) { const std::vector<u8> v = thread_data(t, k); return s + "0000: " + dump_line(v.data(), v.size()); }
    size_t n = r.pct(70) ? r.below(60) : r.pct(70) ? 480 + r.below(100) : r.below(6000);
    const char fill = (char)('a' + (t.id * 7 + k) % 26);
    s.append(n, fill);
    return s + "$";
}
int thread_level(int k) { static const int l[] = { 1, 2, 3, 4, 5, -2 }; return l[k % 6]; }
GLogModule* thread_mods[4];
void* thread_proc(void* p) {
    Thread& t = *(Thread*)p;
    t.tid = (int)syscall(SYS_gettid);
    pthread_barrier_wait(t.bar);
    for (int k = 0; k < t.count; k++) {
        const std::string s = thread_text(t, k);
        fake_thread_time = t.when + (time_t)k * t.step;
        if (thread_dump(k)) { const std::vector<u8> v = thread_data(t, k); gutil_log_dump(thread_mods[k & 3], thread_level(k), thread_prefix(t, k).c_str(), v.data(), v.size()); }
        else gutil_log(thread_mods[k & 3], thread_level(k), "%s", s.c_str());
        if (!(k & 31)) sched_yield();
    }
    return NULL;
}
void threads_case(Case& c)
{
    Rng& r = c.r;
    Globals g;
    const int n = 2 + (int)r.below(7), count = 50 + (int)r.below(200), sink = (int)r.below(vh_is_tsan() ? 2 : 4);
    gutil_log_default.level = GLOG_LEVEL_VERBOSE;
    gutil_log_tid = r.pct(60);
    gutil_log_timestamp = r.pct(50);
    gutil_log_func = sink == 0 ? gutil_log_stdout : sink == 1 ? gutil_log_stderr : sink == 2 ? gutil_log_syslog : gutil_log_glib;
    vh_glib_log_hook = glib_hook;
    const char* const names[] = { NULL, "mod", "another-module", "m3" };
    for (int i = 0; i < 4; i++) thread_mods[i] = names[i] ? new_module(names[i], NULL) : NULL;
    vh_op("%d threads %d messages sink %d tid %d", n, count, sink, gutil_log_tid);
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, NULL, n);
    std::vector<Thread> th(n);
    std::string out;
    {
        Capture cap(sink == 1 ? stderr : stdout);
        for (int i = 0; i < n; i++) { th[i].id = i; th[i].count = count; th[i].seed = r.next(); th[i].when = (time_t)r.below(0x70000000); th[i].step = (time_t)(r.pct(50) ? r.below(3) : r.below(100000)); th[i].bar = &bar; if (pthread_create(&th[i].t, NULL, thread_proc, &th[i])) vh_fail("harness", "pthread_create"); }
        for (Thread& t : th) { pthread_join(t.t, NULL); }
        out = cap.take();
    }
    pthread_barrier_destroy(&bar);
    std::vector<std::string> lines;
    if (sink >= 2) for (Msg& m : got) lines.push_back(m.text);
    else {
        size_t pos = 0;
        while (pos < out.size()) { size_t e = out.find('\n', pos); if (e == std::string::npos) vh_fail("oracle", "incomplete line at the end"); lines.push_back(out.substr(pos, e - pos)); pos = e + 1; }
    }
    CHECK_EQ(lines.size(), (size_t)n * count, "number of lines");
    std::vector<int> next(n, 0);
    int switches = 0, last = -1;
    for (size_t i = 0; i < lines.size(); i++) {
        const std::string& l = lines[i];
        const size_t p = l.find("T", l.find(" #") == std::string::npos ? l.size() : l.rfind("T", l.find(" #")));
        int id = -1, k = -1;
        if (p == std::string::npos || sscanf(l.c_str() + p, "T%d #%d ", &id, &k) != 2 || id < 0 || id >= n) vh_fail("oracle", "line %u is damaged: %s", (unsigned)i, vh_quote(l.c_str(), 200).c_str());
        CHECK(k == next[id], "message %d of thread %d when %d is expected", k, id, next[id]);
        next[id]++;
        // The whole line
        const GLogModule* m = thread_mods[k & 3];
        const int level = thread_level(k);
        std::string pre, e;
        if (gutil_log_tid && sink != 3) pre = "[" + std::to_string(th[id].tid) + "] ";
        CHECK(l.compare(0, pre.size(), pre) == 0, "wrong thread id: %s expected %s", vh_quote(l.c_str()).c_str(), pre.c_str());
        size_t at = pre.size();
        if (sink < 2 && gutil_log_timestamp) {
            const time_t when = th[id].when + (time_t)k * th[id].step;
            struct tm tm;
            char ts[64];
            localtime_r(&when, &tm);
            const size_t len = strftime(ts, sizeof(ts), "%Y-%m-%d %H:%M:%S ", &tm);
            CHECK(l.compare(at, len, ts) == 0, "wrong timestamp: %s expected %s", vh_quote(l.c_str()).c_str(), ts);
            at += len;
        }
        if (m && sink != 3) e += std::string("[") + m->name + "] ";
        if (sink == 3) CHECK(got[i].has_name == (m != NULL) && (!m || got[i].name == m->name), "wrong domain");
        else if (level == 1) e += sink == 2 ? "ERROR! " : "ERROR: "; else if (level == 2) e += sink == 2 ? "WARNING! " : "WARNING: ";
        e += thread_text(th[id], k);
        std::string tail = l.substr(at);
        if (thread_dump(k)) { while (!tail.empty() && tail.back() == ' ') tail.pop_back(); while (e.back() == ' ') e.pop_back(); CNT("dumps"); }
        CHECK(tail == e, "line %u is %s (%u) expected %s (%u)", (unsigned)i, vh_quote(l.c_str() + at, 100).c_str(), (unsigned)(l.size() - at), vh_quote(e.c_str(), 100).c_str(), (unsigned)e.size());
        if (id != last) switches++;
        last = id;
    }
    vh_op("%d switches between threads", switches);
    for (int i = 0; i < 4; i++) free((void*)thread_mods[i]);
    CNTN("lines", lines.size());
    CNTN("thread_switches", switches);
    if (gutil_log_tid) CNT("with_tid");
    if (sink == 0) CNT("stdout"); else if (sink == 1) CNT("stderr"); else if (sink == 2) CNT("syslog"); else CNT("glib");
    if (switches > n) { vh_nontrivial(); CNT("interleaved_cases"); }
}

void init() { if (!default_func2) default_func2 = gutil_log_func2; }
void c18(Case& c) { init(); Filter x(c); x.run(); }
void c19(Case& c) { init(); BackEnds x(c); x.run(); }
void c20(Case& c) { init(); Options x(c); x.run(); }
void c21(Case& c) { init(); dump_case(c); }
void c34(Case& c) { init(); threads_case(c); }
VH_PROP(C18, c18);
VH_PROP(C19, c19);
VH_PROP(C20, c20);
VH_PROP(C21, c21);
VH_PROP(C34, c34);
}
