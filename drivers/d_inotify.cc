// C13, C14: inotify watches. The oracle is a separate inotify descriptor which
// watches the same files with the same masks: whatever the kernel reports there
// has to be delivered to the handlers, one call for each event.
#include "../harness/vh.h"
#include <sys/inotify.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <limits.h>
#include <errno.h>
extern "C" {
#include "gutil_inotify.h"
int __real_inotify_init(void);
int __real_inotify_init1(int);
int __real_inotify_add_watch(int, const char*, uint32_t);
int __real_inotify_rm_watch(int, int);
}

namespace {
int raw_fd = -1;
int high_fd;        // number of the descriptor
bool use_fd0;       // stdin is closed
void restore_fd0() { use_fd0 = false; if (fcntl(0, F_GETFD) < 0) (void)!open("/dev/null", O_RDONLY); }
// Failures to inject (errno, 0 if none)
int fail_init, fail_add, fail_read;
int n_init, n_add, n_rm;
int lib_fd = -1;
void (*before_read)(size_t);
extern std::set<int> lib_fds;
}
extern "C" int __wrap_inotify_init1(int flags)
{
    n_init++;
    if (fail_init) { errno = fail_init; return -1; }
    if (use_fd0) { use_fd0 = false; close(0); CNT("descriptor_0"); }     // The lowest one is taken
    lib_fd = __real_inotify_init1(flags);
    if (lib_fd >= 0) lib_fd = vh_high_fd(lib_fd, high_fd);
    if (lib_fd >= 0) lib_fds.insert(lib_fd);
    return lib_fd;
}
extern "C" int __wrap_inotify_init(void) { return __wrap_inotify_init1(0); }
extern "C" int __wrap_inotify_add_watch(int fd, const char* path, uint32_t mask)
{
    n_add++;
    if (fail_add) { errno = fail_add; return -1; }
    return __real_inotify_add_watch(fd, path, mask);
}
extern "C" int __wrap_inotify_rm_watch(int fd, int wd)
{
    n_rm++;
    return __real_inotify_rm_watch(fd, wd);
}
#if !__has_feature(thread_sanitizer)
// GIOChannel reads the descriptor with this one
extern "C" ssize_t read(int fd, void* buf, size_t n)
{
    if (fail_read && fd == lib_fd) { errno = fail_read; fail_read = 0; return -1; }
    if (before_read && fd == lib_fd) before_read(n);
    return syscall(SYS_read, fd, buf, n);
}
#endif

namespace {
struct Model; struct Watch;
struct Handler { Watch* w; int id; gulong hid; bool removed; std::vector<u64> script; bool is_callback; };
struct Watch {
    Model* m; int idx; GUtilInotifyWatch* w; GUtilInotifyWatch* ident; GUtilInotifyWatchCallback* cb; std::string path; u32 mask; int raw_wd; bool destroyed, lingering; int refs;
    std::vector<Handler*> handlers; u64 inode;
};
struct Ev { int raw_wd; u32 mask, cookie; std::string name; bool has_name; };

void rmtree(const std::string& p)
{
    DIR* d = opendir(p.c_str());
    if (d) {
        struct dirent* e;
        while ((e = readdir(d))) {
            if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
            std::string q = p + "/" + e->d_name;
            struct stat st;
            if (!lstat(q.c_str(), &st) && S_ISDIR(st.st_mode)) rmtree(q); else unlink(q.c_str());
        }
        closedir(d);
    }
    rmdir(p.c_str());
}
// Descriptors which the library has opened
std::set<int> lib_fds;
int count_inotify()
{
    int n = 0;
    for (auto it = lib_fds.begin(); it != lib_fds.end(); ) {
        char p[64], b[64];
        snprintf(p, sizeof(p), "/proc/self/fd/%d", *it);
        ssize_t k = readlink(p, b, sizeof(b) - 1);
        b[k > 0 ? k : 0] = 0;
        if (!strcmp(b, "anon_inode:inotify")) { n++; ++it; } else it = lib_fds.erase(it);
    }
    return n;
}

GUtilInotifyWatch* keeper;
struct Model {
    Case& c; Rng r; bool faults;
    std::string root;
    std::vector<std::string> dirs, files;
    std::vector<Watch*> watches; std::vector<Handler*> handlers;
    std::deque<Ev> expected;
    bool have_cur; Ev cur; std::set<int> called, required; bool dispatching;
    int budget, nfile; bool broken;
    std::vector<int> decoys;

    Model(Case& c_, bool f) : c(c_), r(c_.r.next()), faults(f), have_cur(false), dispatching(false), budget(40), nfile(0), broken(false) {}
    ~Model() { for (Watch* w : watches) delete w; for (Handler* h : handlers) delete h; }

    Watch* by_raw(int wd) { for (Watch* w : watches) if (!w->destroyed && w->raw_wd == wd) return w; return NULL; }
    void start(const Ev& e) {
        cur = e; have_cur = true; called.clear(); required.clear();
        Watch* w = by_raw(e.raw_wd);
        if (w) for (Handler* h : w->handlers) if (!h->removed) required.insert(h->id);
    }
    void finish_cur() {
        if (!have_cur) return;
        for (int id : required) if (!called.count(id) && !handlers[id]->removed && !handlers[id]->w->destroyed)
            vh_fail("oracle", "handler %d was not called for event mask=%x name=%s", id, cur.mask, cur.has_name ? vh_quote(cur.name.c_str()).c_str() : "(none)");
        have_cur = false;
    }
    bool matches(const Ev& e, Watch* w, u32 mask, u32 cookie, const char* name) {
        return e.raw_wd == w->raw_wd && e.mask == mask && e.cookie == cookie && e.has_name == (name != NULL) && (!name || e.name == name);
    }
    void on_event(Handler* h, GUtilInotifyWatch* gw, u32 mask, u32 cookie, const char* name) {
        Watch* w = h->w;
        CHECK(dispatching, "handler %d is called out of the main loop", h->id);
        CHECK(!h->removed, "removed handler %d is called", h->id);
        if (w->cb) { CHECK(!w->w || w->w == gw, "handler %d is called with a wrong watch", h->id); w->w = w->ident = gw; }
        else CHECK(gw == w->ident, "handler %d is called with a wrong watch", h->id);
        CHECK(!broken, "handler %d is called after the descriptor failed", h->id);
        if (!(have_cur && cur.raw_wd == w->raw_wd && matches(cur, w, mask, cookie, name) && !called.count(h->id))) {
            finish_cur();
            for (;;) {
                if (expected.empty()) read_raw();       // It may have happened in a handler
                if (expected.empty()) vh_fail("oracle", "handler %d is called for event mask=%x cookie=%u name=%s which did not happen", h->id, mask, cookie, name ? vh_quote(name).c_str() : "(none)");
                Ev e = expected.front();
                expected.pop_front();
                start(e);
                if (by_raw(e.raw_wd) == w || (w->destroyed && e.raw_wd == w->raw_wd)) break;
                finish_cur();       // must not have been required by anyone
            }
            if (!matches(cur, w, mask, cookie, name))
                vh_fail("oracle", "handler %d: event mask=%x cookie=%u name=%s, expected mask=%x cookie=%u name=%s", h->id, mask, cookie, name ? vh_quote(name).c_str() : "(none)",
                    cur.mask, cur.cookie, cur.has_name ? vh_quote(cur.name.c_str()).c_str() : "(none)");
            CHECK(!w->destroyed, "handler %d of a destroyed watch is called", h->id);
        }
        called.insert(h->id);
        vh_mix(h->id); vh_mix(mask);
        CNT("delivered");
        if (cookie) CNT("delivered_with_cookie");
        if (name && strlen(name) > 250) CNT("delivered_longest_name");
        // Handlers may do anything with watches, handlers and files
        if (h->script.size()) {
            Rng save = r;
            r = Rng(h->script.back());
            h->script.pop_back();
            Watch* x = r.pct(50) ? w : r.pick(watches);
            switch (r.below(10)) {
            case 8: case 9: for (int n = 1 + (int)r.below(4); n; n--) new_file_op(); CNT("file_op_in_handler"); break;
            case 0: remove_handler(h); CNT("remove_in_handler"); break;
            case 1: if (x->handlers.size()) remove_handler(r.pick(x->handlers)); CNT("remove_in_handler"); break;
            case 2: destroy(x); CNT("destroy_in_handler"); break;
            case 3: release(x); CNT("unref_in_handler"); break;
            case 4: add_handler(x); break;
            case 5: new_watch(); break;
            case 6: if (r.pct(20)) { for (Watch* y : watches) destroy(y); CNT("destroy_all_in_handler"); if (r.pct(50)) new_watch(); } break;
            case 7: if (x->w && x->refs > 0) { gutil_inotify_watch_ref(x->w); x->refs++; } break;
            }
            r = save;
        }
    }
    static Model* current;
    static void cb(GUtilInotifyWatch* w, guint mask, guint cookie, const char* name, void* arg) {
        Handler* h = (Handler*)arg;
        h->w->m->on_event(h, w, mask, cookie, name);
    }
    // Reads all, or as much as the library does in order to keep both queues equal
    void read_raw(size_t size = 0) {
        alignas(struct inotify_event) char buf[65536];
        for (bool once = false; !once; ) {
            once = size > 0;
            ssize_t n = syscall(SYS_read, raw_fd, buf, size ? std::min(size, sizeof(buf)) : sizeof(buf));
            if (n <= 0) break;
            for (char* p = buf; p < buf + n; ) {
                struct inotify_event* e = (struct inotify_event*)p;
                expected.push_back({ e->wd, e->mask, e->cookie, e->len ? e->name : "", e->len > 0 });
                p += sizeof(*e) + e->len;
                CNT("kernel_events");
                if (e->mask & IN_Q_OVERFLOW) CNT("queue_overflow");
            }
        }
    }
    u32 gen_mask() {
        switch (r.below(5)) {
        case 0: case 1: return IN_ALL_EVENTS;
        case 2: return 1u << r.below(12);
        case 3: return IN_CREATE | IN_DELETE | IN_MOVED_FROM | IN_MOVED_TO | IN_CLOSE_WRITE;
        default: { u32 m = (u32)r.next() & IN_ALL_EVENTS; return m ? m : IN_MODIFY; }
        }
    }
    // Flags for the kernel rather than events
    u32 gen_flags() {
        static const u32 f[] = { IN_ONLYDIR, IN_DONT_FOLLOW, IN_EXCL_UNLINK, IN_ONESHOT };
        u32 m = 0;
        if (r.pct(20)) for (int n = 1 + (int)r.below(2); n; n--) m |= f[r.below(4)];
        return m;
    }
    Handler* make_handler(Watch* w) {
        Handler* h = new Handler();
        h->w = w; h->id = (int)handlers.size(); h->removed = false; h->hid = 0; h->is_callback = false;
        if (r.pct(35)) for (int n = 1 + (int)r.below(2); n; n--) h->script.push_back(r.next());
        handlers.push_back(h);
        w->handlers.push_back(h);
        return h;
    }
    void add_handler(Watch* w) {
        if (!w->w || w->refs < 1 || w->handlers.size() > 5) return;
        Handler* h = make_handler(w);
        vh_op("handler %d for watch %d", h->id, w->idx);
        h->hid = gutil_inotify_watch_add_handler(w->w, cb, h);
        CHECK(h->hid, "no handler");
        CNT("handlers");
    }
    void remove_handler(Handler* h) {
        if (h->removed || h->is_callback || h->w->refs < 1) return;
        vh_op("remove handler %d", h->id);
        h->removed = true;
        gutil_inotify_watch_remove_handler(h->w->w, h->hid);
    }
    void stopped(Watch* w) {
        w->destroyed = true;
        __real_inotify_rm_watch(raw_fd, w->raw_wd);
    }
    void gone(Watch* w) { w->w = NULL; w->cb = NULL; for (Handler* h : w->handlers) if (h->is_callback) h->removed = true; CNT("watch_freed"); }
    // Takes away one of our references
    void destroy(Watch* w) {
        if (w->refs < 1) return;
        if (w->cb && (w->refs == 1 || r.pct(50))) { free_callback(w); return; }
        vh_op("destroy watch %d refs=%d", w->idx, w->refs);
        if (!w->destroyed) { stopped(w); if (w->cb) CNT("destroy_of_callback_watch"); }
        GUtilInotifyWatch* p = w->w;
        if (!--w->refs) gone(w);
        gutil_inotify_watch_destroy(p);
        CNT("destroy");
    }
    // The watch may have been referenced by somebody else
    void free_callback(Watch* w) {
        vh_op("free callback of watch %d refs=%d", w->idx, w->refs);
        GUtilInotifyWatchCallback* p = w->cb;
        w->cb = NULL;
        for (Handler* h : w->handlers) if (h->is_callback) h->removed = true;
        if (!--w->refs) {
            if (!w->destroyed) { stopped(w); w->lingering = dispatching; }
            gone(w);
        } else CNT("callback_watch_survives");
        gutil_inotify_watch_callback_free(p);
        CNT("callback_free");
    }
    void release(Watch* w) {
        if (w->refs < (w->cb ? 2 : 1)) return;
        vh_op("unref watch %d refs=%d", w->idx, w->refs);
        GUtilInotifyWatch* p = w->w;
        // In a handler the watch being notified survives until the end of the emission
        const bool in_emission = dispatching && have_cur && cur.raw_wd == w->raw_wd;
        if (!--w->refs) { if (!w->destroyed) { w->destroyed = true; w->lingering = dispatching; if (!in_emission) __real_inotify_rm_watch(raw_fd, w->raw_wd); else pending_rm.push_back(w->raw_wd); } gone(w); }
        gutil_inotify_watch_unref(p);
        CNT("unref");
    }
    std::vector<int> pending_rm;
    bool watched(u64 ino) { for (Watch* w : watches) if ((!w->destroyed || w->lingering) && w->inode == ino) return true; return false; }
    void new_watch() {
        if (--budget < 0) return;
        std::string p;
        const bool missing = r.pct(8);
        if (missing) p = root + "/missing" + (r.pct(50) ? "/x" : "");
        else if (files.size() && r.pct(25)) p = r.pick(files);
        else if (r.pct(8)) p = root;
        else p = r.pick(dirs);
        if (!missing && !dispatching && r.pct(10)) {
            char b[32];
            snprintf(b, sizeof(b), "/link%d", nfile++);
            if (!symlink(p.c_str(), (root + b).c_str())) { p = root + b; CNT("symlink"); }
        } else if (!missing && !dispatching && r.pct(10)) {
            // Different spellings of the same thing
            const size_t k = p.find('/', root.size());
            if (k != std::string::npos) p.insert(k, r.pct(50) ? "/" : "/.");
            if (p.back() != '/' && r.pct(30) && std::find(files.begin(), files.end(), p) == files.end() && p.find("//") == std::string::npos && p.find("/./") == std::string::npos) p += "/";
        }
        const u32 flags = gen_flags();
        struct stat st;
        const bool exists = !(flags & IN_DONT_FOLLOW ? lstat(p.c_str(), &st) : stat(p.c_str(), &st));
        if (!exists && !missing) return;
        if (exists && watched(st.st_ino)) return;
        Watch* w = new Watch();
        w->m = this; w->idx = (int)watches.size(); w->path = p; w->mask = gen_mask() | flags; w->destroyed = w->lingering = false; w->refs = 1; w->raw_wd = -1;
        w->w = w->ident = NULL; w->cb = NULL; w->inode = exists ? st.st_ino : 0;
        fail_init = fail_add = 0;
        const int live = live_watches();
        if (faults && r.pct(12)) { static const int e[] = { EMFILE, ENFILE, ENOMEM }; fail_init = e[r.below(3)]; }
        if (faults && r.pct(12)) { static const int e[] = { ENOSPC, EACCES, ENOMEM, ENOENT }; fail_add = e[r.below(4)]; }
        // IN_IGNORED from a temporary watch would prevent the kernel from merging events, hence none if it's going to fail
        const bool fault = fail_add || (fail_init && !instance_alive());
        if (exists && !fault) w->raw_wd = __real_inotify_add_watch(raw_fd, p.c_str(), w->mask);
        if (flags) { CNT("mask_with_flags"); if (w->raw_wd < 0 && exists && !fault) CNT("watch_refused_by_kernel"); if (flags & IN_ONESHOT) CNT("oneshot"); }
        else if (exists && !fault && w->raw_wd < 0) vh_fail("harness", "inotify_add_watch failed: %s", strerror(errno));
        const bool expect = w->raw_wd >= 0;
        const bool as_cb = r.pct(35);
        vh_op("watch %d: %s mask=%x%s%s%s", w->idx, p.c_str() + root.size(), w->mask, as_cb ? " (callback)" : "", fail_init ? " fail_init" : "", fail_add ? " fail_add" : "");
        watches.push_back(w);
        Handler* h = NULL;
        if (as_cb) {
            h = make_handler(w);
            h->is_callback = true;
            w->cb = gutil_inotify_watch_callback_new(p.c_str(), w->mask, cb, h);
        } else {
            w->w = gutil_inotify_watch_new(p.c_str(), w->mask);
        }
        const bool ok = w->cb || w->w;
        (void)live;
        if (fail_init || fail_add) CNT("fault_injected");
        fail_init = fail_add = 0;
        CHECK_EQ(ok, expect, "watch creation");
        vh_mix(ok);
        if (ok) {
            w->ident = w->w;
            CNT("watch_new");
            if (as_cb) CNT("callback_new");
            else if (r.pct(85)) add_handler(w);
        } else {
            w->destroyed = true; w->refs = 0;
            if (h) h->removed = true;
            CNT("watch_failed");
            check_fds("after failure");
        }
    }
    int live_watches() { int n = 0; for (Watch* w : watches) n += w->refs > 0; return n; }
    bool instance_alive() { return keeper || dispatching || live_watches() > 0; }
    void check_fds(const char* when) {
        if (dispatching) return;
        CHECK_EQ(count_inotify(), live_watches() > 0 || keeper ? 1 : 0, when);
        for (int fd : decoys) CHECK(fcntl(fd, F_GETFD) >= 0, "somebody closed descriptor %d", fd);
        CNT("fd_checks");
    }
    //------------------------------------------------------------ file system
    std::string name() {
        const int len = r.pct(70) ? 1 + (int)r.below(12) : r.pct(40) ? 255 : 1 + (int)r.below(250);
        char pre[16];
        snprintf(pre, sizeof(pre), "%d", nfile++);
        std::string s = pre;
        if (len == 255) CNT("longest_names");
        while ((int)s.size() < len) s += (char)(r.pct(90) ? 'a' + r.below(26) : r.pct(50) ? 0xc3 : ' ');
        return s.substr(0, 255);
    }
    void fs_op() {
        const int k = (int)r.below(12);
        if (k < 4 || files.empty()) {
            std::string p = r.pick(dirs) + "/" + name();
            int fd = open(p.c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0644);
            if (fd < 0) return;
            if (r.pct(40)) (void)!write(fd, "x", 1);
            close(fd);
            files.push_back(p);
            return;
        }
        const size_t i = r.below(files.size());
        switch (k) {
        case 4: case 5: { int fd = open(files[i].c_str(), O_WRONLY | O_APPEND | O_CLOEXEC); if (fd >= 0) { for (int n = (int)r.below(3); n >= 0; n--) (void)!write(fd, "y", 1); close(fd); } break; }
        case 6: { int fd = open(files[i].c_str(), O_RDONLY | O_CLOEXEC); char b[4]; if (fd >= 0) { (void)!syscall(SYS_read, fd, b, sizeof(b)); close(fd); } break; }
        case 7: chmod(files[i].c_str(), r.pct(50) ? 0600 : 0644); break;
        case 8: case 9: { std::string p = r.pick(dirs) + "/" + name(); if (!rename(files[i].c_str(), p.c_str())) files[i] = p; break; }
        case 10: unlink(files[i].c_str()); files.erase(files.begin() + i); break;
        case 11: {
            std::string p = r.pick(dirs) + "/" + name();
            if (!mkdir(p.c_str(), 0755)) { if (r.pct(50)) rmdir(p.c_str()); else if (dirs.size() < 8) dirs.push_back(p); }
            break; }
        }
    }
    // Events of new files cannot be merged with the last one of either queue
    void new_file_op() {
        char b[32];
        snprintf(b, sizeof(b), "/h%d", nfile++);
        const std::string p = r.pick(dirs) + b;
        if (r.pct(25)) { if (!mkdir(p.c_str(), 0755) && !rmdir(p.c_str())) return; }
        const int fd = open(p.c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0644);
        if (fd < 0) return;
        if (r.pct(40)) (void)!write(fd, "x", 1);
        close(fd);
        std::string q = p;
        if (r.pct(50)) { q = r.pick(dirs) + b + "r"; if (rename(p.c_str(), q.c_str())) q = p; }
        if (r.pct(50)) unlink(q.c_str()); else files.push_back(q);
    }
    int raw_pending() { int n = 0; return ioctl(raw_fd, FIONREAD, &n) < 0 ? 0 : n; }
    // More events than the kernel is willing to keep
    void overflow() {
        if (files.empty()) fs_op();
        if (files.empty()) return;
        for (int i = 0; i < 4; i++) new_watch();
        sync();     // Both queues have to be empty
        // And remain equal, because what fits into one of them has to fit into the other one
        for (Handler* h : handlers) h->script.clear();
        vh_op("lots of events");
        const int fd = open(r.pick(files).c_str(), O_WRONLY | O_APPEND | O_CLOEXEC);
        // Different events in a row, so that they aren't merged
        CNT("lots_of_events");
        for (int i = 0; i < 9000; i++) { (void)!write(fd, "z", 1); fchmod(fd, i & 1 ? 0600 : 0644); }
        close(fd);
        // Some of them are read, and there is room for more behind the overflow
        current = this;
        before_read = lib_reads;
        for (int n = (int)r.below(4); n; n--) { dispatching = true; g_main_context_iteration(NULL, FALSE); dispatching = false; }
        current = NULL;
        for (int i = 0; i < 5; i++) new_file_op();
        sync();
        for (int i = 0; i < 5; i++) fs_op();
        sync();
    }
    void remove_dir() {
        if (dirs.size() < 3) return;
        const size_t i = r.below(dirs.size());
        const std::string d = dirs[i];
        for (const std::string& o : dirs) if (o != d && !o.compare(0, d.size() + 1, d + "/")) return;
        for (size_t k = 0; k < files.size(); ) if (!files[k].compare(0, d.size() + 1, d + "/")) { unlink(files[k].c_str()); files.erase(files.begin() + k); } else k++;
        if (!rmdir(d.c_str())) { vh_op("rmdir"); dirs.erase(dirs.begin() + i); CNT("watched_dir_removed"); }
    }
    static void lib_reads(size_t n) { if (current) current->read_raw(n); }
    void sync() {
        if (!broken && faults && !keeper && live_watches() && r.pct(4) && !vh_is_tsan()) {
            bool any = false;
            read_raw();
            for (Ev& e : expected) any |= by_raw(e.raw_wd) != NULL;
            if (any) { fail_read = EIO; broken = true; vh_op("read error"); CNT("read_error_injected"); }
        }
        vh_op("sync: %d bytes", raw_pending());
        if (raw_pending() > 40 * (int)sizeof(struct inotify_event)) CNT("large_batches");
        current = this;
        before_read = lib_reads;
        dispatching = true;
        int n = 0;
        while (g_main_context_iteration(NULL, FALSE) && ++n < 100000);
        dispatching = false;
        current = NULL;
        read_raw();
        if (fail_read) { fail_read = 0; broken = false; }
        for (int wd : pending_rm) __real_inotify_rm_watch(raw_fd, wd);
        pending_rm.clear();
        for (Watch* w : watches) w->lingering = false;
        if (broken) { expected.clear(); have_cur = false; }
        finish_cur();
        while (!expected.empty()) { Ev e = expected.front(); expected.pop_front(); start(e); finish_cur(); }
        read_raw();         // IN_IGNORED of those which have been removed meanwhile
        expected.clear();
        if (broken && !live_watches()) broken = false;
        CNT("syncs");
    }
    void run() {
        char b[64];
        if (raw_fd < 0) {
            raw_fd = __real_inotify_init1(IN_NONBLOCK | IN_CLOEXEC);
            lib_fds.erase(raw_fd);
            if (raw_fd < 0) vh_fail("harness", "inotify_init1: %s", strerror(errno));
        }
        snprintf(b, sizeof(b), "/c%llu", (unsigned long long)c.idx);
        root = vh_scratch() + b;
        mkdir(root.c_str(), 0755);
        for (int i = 2 + (int)r.below(3); i; i--) { snprintf(b, sizeof(b), "/d%d", i); dirs.push_back(root + b); mkdir(dirs.back().c_str(), 0755); }
        read_raw(); expected.clear();
        const int steps = 8 + (int)r.below(25);
        for (int i = 0; i < steps; i++) {
            const u32 op = (u32)r.below(faults ? 22 : 18);
            switch (op) {
            case 0: case 1: case 2: new_watch(); check_fds("new watch"); break;
            case 3: if (watches.size()) add_handler(r.pick(watches)); break;
            case 4: if (handlers.size()) { Handler* h = r.pick(handlers); remove_handler(h); } break;
            case 5: if (watches.size()) { flush(); destroy(r.pick(watches)); check_fds("destroy"); sync(); } break;
            case 6: if (watches.size()) { flush(); release(r.pick(watches)); check_fds("unref"); sync(); } break;
            case 7: if (watches.size()) { Watch* w = r.pick(watches); if (w->refs > 0 && w->w) { CHECK(gutil_inotify_watch_ref(w->w) == w->w, "ref"); w->refs++; vh_op("ref watch %d", w->idx); } } break;
            case 8: flush(); remove_dir(); sync(); break;
            case 9: case 10: case 11: case 12: case 13: case 14: case 15: case 16: case 17: {
                if (!(c.idx % 251) && op == 9) { overflow(); break; }
                const int n = r.pct(15) ? 40 + (int)r.below(160) : 1 + (int)r.below(8);
                vh_op("%d file operations", n);
                for (int k = 0; k < n; k++) fs_op();
                if (r.pct(85)) sync();
                break; }
            case 18: case 19: new_watch(); check_fds("new watch"); break;
            case 20: if (decoys.size() < 4) { int fd = open("/dev/null", O_RDONLY | O_CLOEXEC); if (fd >= 0) decoys.push_back(fd); } break;
            case 21: if (r.pct(30)) { flush(); vh_op("drop everything"); for (Watch* w : watches) while (w->refs > 0) { if (r.pct(50)) destroy(w); else { release(w); if (w->cb) destroy(w); } } check_fds("nothing left"); sync(); CNT("dropped_everything"); } break;
            }
        }
        flush();
        for (Watch* w : watches) while (w->refs > 0) destroy(w);
        check_fds("the end");
        sync();
        for (int fd : decoys) CHECK(!close(fd), "descriptor %d is not open any more", fd);
        rmtree(root);
        if (handlers.size()) vh_nontrivial();
    }
    // The set of watches changes only when both queues are empty
    void flush() { sync(); }
};
Model* Model::current;
}
// Closing an inotify descriptor is slow. In most cases there is a watch which
// nothing happens to, and the descriptor stays there.
static void keep(bool on)
{
    if (on && !keeper) {
        const std::string d = vh_scratch() + "/keeper";
        mkdir(d.c_str(), 0755);
        keeper = gutil_inotify_watch_new(d.c_str(), IN_CREATE);
        CHECK(keeper, "no watch");
    } else if (!on && keeper) {
        gutil_inotify_watch_destroy(keeper);
        keeper = NULL;
    }
}
static int pair_calls[2];
static void pair_cb(GUtilInotifyWatch*, guint, guint, const char*, void* arg) { pair_calls[(size_t)arg]++; }
// Destroying a watch does not affect a more recent one for the same directory
static void same_inode(Rng& r)
{
    const std::string d = vh_scratch() + "/same";
    mkdir(d.c_str(), 0755);
    GUtilInotifyWatch* a = gutil_inotify_watch_new(d.c_str(), IN_CREATE);
    GUtilInotifyWatch* b = gutil_inotify_watch_new(d.c_str(), IN_CREATE);
    CHECK(a && b && a != b, "no watch");
    pair_calls[0] = pair_calls[1] = 0;
    gutil_inotify_watch_add_handler(b, pair_cb, (void*)1);
    if (r.pct(50)) gutil_inotify_watch_destroy(a); else gutil_inotify_watch_unref(a);
    close(open((d + "/x").c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0644));
    while (g_main_context_iteration(NULL, FALSE));
    CHECK_EQ(pair_calls[1], 1, "events of a watch after another one for the same directory was destroyed");
    if (r.pct(50)) gutil_inotify_watch_destroy(b); else gutil_inotify_watch_unref(b);
    unlink((d + "/x").c_str());
    rmdir(d.c_str());
    CNT("same_directory");
}
// Watch descriptors are never used again while the instance exists, they just
// become larger and larger
static void many_watches(Rng& r)
{
    const std::string d = vh_scratch() + "/many";
    mkdir(d.c_str(), 0755);
    for (int k = 0; k < 33000 + (int)r.below(500); k++) {
        GUtilInotifyWatch* w = gutil_inotify_watch_new(d.c_str(), IN_CREATE);
        if (!w) vh_fail("oracle", "no watch after %d others", k);
        if (r.below(2)) gutil_inotify_watch_destroy(w); else gutil_inotify_watch_unref(w);
        if (!(k % 256)) { while (g_main_context_iteration(NULL, FALSE)); vh_heartbeat(); }
    }
    GUtilInotifyWatch* w = gutil_inotify_watch_new(d.c_str(), IN_CREATE);
    CHECK(w, "no watch");
    pair_calls[0] = pair_calls[1] = 0;
    gutil_inotify_watch_add_handler(w, pair_cb, (void*)1);
    close(open((d + "/x").c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0644));
    while (g_main_context_iteration(NULL, FALSE));
    CHECK_EQ(pair_calls[1], 1, "events of a watch with a large descriptor");
    gutil_inotify_watch_destroy(w);
    unlink((d + "/x").c_str());
    rmdir(d.c_str());
    while (g_main_context_iteration(NULL, FALSE));
    CNT("large_watch_descriptors");
}
static void c13(Case& c)
{
    keep(((c.idx >> 7) & 15) != 0);
    if (!(c.idx & 31)) { same_inode(c.r); count_inotify(); }
    use_fd0 = !(c.idx % 13) && !lib_fds.count(0);
    high_fd = vh_high_fd(c);
    if (keeper && c.idx % 3203 == 131) many_watches(c.r);
    Model m(c, false);
    m.run();
    restore_fd0();
}
static void c14(Case& c) { keep(((c.idx >> 7) & 3) == 3); high_fd = vh_high_fd(c); use_fd0 = !(c.idx % 7) && !lib_fds.count(0); Model m(c, true); m.run(); restore_fd0(); }
VH_PROP(C13, c13);
VH_PROP(C14, c14);

// Known finding: two watches for the same inode share the watch descriptor
static int shared_calls[2];
static void shared_cb(GUtilInotifyWatch*, guint, guint, const char*, void* arg) { shared_calls[(size_t)arg]++; }
static void shared_inode()
{
    const std::string d = vh_scratch() + "/shared";
    mkdir(d.c_str(), 0755);
    GUtilInotifyWatch* a = gutil_inotify_watch_new(d.c_str(), IN_CREATE);
    GUtilInotifyWatch* b = gutil_inotify_watch_new(d.c_str(), IN_CREATE);
    CHECK(a && b, "no watch");
    gutil_inotify_watch_add_handler(a, shared_cb, (void*)0);
    gutil_inotify_watch_add_handler(b, shared_cb, (void*)1);
    close(open((d + "/x").c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0644));
    while (g_main_context_iteration(NULL, FALSE));
    unlink((d + "/x").c_str());
    rmdir(d.c_str());
    CHECK(shared_calls[0] == 1 && shared_calls[1] == 1, "two watches of one directory: first was notified %d times, second %d times", shared_calls[0], shared_calls[1]);
    gutil_inotify_watch_unref(a);
    gutil_inotify_watch_unref(b);
}
VH_SCENARIO(C13, "inotify-shared-inode", shared_inode);
