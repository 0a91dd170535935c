// C30: time change notifier. The kernel timer is replaced with one end of a
// socket pair, settings are checked with a real one.
#include "../harness/vh.h"
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <time.h>
#include <unistd.h>
extern "C" {
#include "gutil_timenotify.h"
int __real_timerfd_create(int, int);
int __real_timerfd_settime(int, int, const struct itimerspec*, struct itimerspec*);
}

namespace {
struct Timer { int fd, peer, real; bool armed, closed, hup, pending; ino_t ino; };
std::vector<Timer*> timers;
int fail_create, fail_settime;
u64 creates;
bool use_fd0;
int high_fd;
Timer* timer_of(int fd) { for (Timer* t : timers) if (t->fd == fd && !t->closed) return t; return NULL; }
// The descriptor is closed if there's nothing or something else there
void refresh(Timer* t) {
    if (t->closed) return;
    struct stat st;
    if (fstat(t->fd, &st) < 0 || st.st_ino != t->ino) { t->closed = true; close(t->peer); t->peer = -1; }
}
}
extern "C" int __wrap_timerfd_create(int clock, int flags)
{
    creates++;
    if (fail_create) { errno = fail_create; fail_create = 0; CNT("create_failed"); return -1; }
    CHECK(clock == CLOCK_REALTIME || clock == CLOCK_REALTIME_ALARM, "timer of clock %d can't be told about changes of the real time", clock);
    int sv[2];
    Timer* t = new Timer();
    if (socketpair(AF_UNIX, SOCK_STREAM | ((flags & TFD_NONBLOCK) ? SOCK_NONBLOCK : 0), 0, sv) < 0) vh_fail("harness", "socketpair");
    fcntl(sv[1], F_SETFL, O_NONBLOCK);
    // As if stdin was closed
    if (use_fd0) { int fd = dup2(sv[0], 0); syscall(SYS_close, sv[0]); sv[0] = fd; use_fd0 = false; CNT("descriptor_0"); }
    sv[0] = vh_high_fd(sv[0], high_fd);
    t->fd = sv[0]; t->peer = sv[1];
    t->real = __real_timerfd_create(clock, flags | TFD_NONBLOCK);
    CHECK(t->real >= 0, "timerfd_create(%d, 0x%x): errno %d", clock, flags, errno);
    t->armed = t->closed = t->hup = t->pending = false;
    struct stat st;
    fstat(t->fd, &st);
    t->ino = st.st_ino;
    // The number could be reused
    for (Timer* x : timers) refresh(x);
    timers.push_back(t);
    return t->fd;
}
extern "C" int __wrap_timerfd_settime(int fd, int flags, const struct itimerspec* ts, struct itimerspec* old)
{
    Timer* t = timer_of(fd);
    CHECK(t, "timerfd_settime(%d)", fd);
    if (fail_settime) { errno = fail_settime; fail_settime = 0; t->armed = false; CNT("settime_failed"); return -1; }
    const int ret = __real_timerfd_settime(t->real, flags, ts, old);
    CHECK(ret == 0, "timerfd_settime: errno %d", errno);
    CHECK(flags & TFD_TIMER_CANCEL_ON_SET, "timer isn't cancelled by changes of the clock (flags %d)", flags);
    CHECK(flags & TFD_TIMER_ABSTIME, "timer isn't absolute (flags %d)", flags);
    if (ts->it_value.tv_sec || ts->it_value.tv_nsec) {
        CHECK(ts->it_value.tv_sec > time(NULL) + 50LL * 365 * 86400, "timer expires at %lld", (long long)ts->it_value.tv_sec);
        t->armed = true;
    } else t->armed = false;
    struct pollfd p = { t->real, POLLIN, 0 };
    CHECK(poll(&p, 1, 0) == 0, "timer expires at once");
    CNT("armed");
    return 0;
}
#if defined(__has_feature)
#if !__has_feature(thread_sanitizer)
#define OVERRIDE_READ
#endif
#endif
#ifdef OVERRIDE_READ
extern "C" ssize_t read(int fd, void* buf, size_t n)
{
    Timer* t = timers.empty() ? NULL : timer_of(fd);
    if (t && !t->hup) {
        if (n < 8) { errno = EINVAL; return -1; }
        char tmp[64];
        bool any = false;
        const int fl = fcntl(fd, F_GETFL);
        fcntl(fd, F_SETFL, fl | O_NONBLOCK);
        while (syscall(SYS_read, fd, tmp, sizeof(tmp)) > 0) any = true;
        fcntl(fd, F_SETFL, fl);
        errno = any ? ECANCELED : EAGAIN;
        return -1;
    }
    return syscall(SYS_read, fd, buf, n);
}
#endif

namespace {
struct TimeCase;
struct H { TimeCase* tc; int idx; gulong id; bool attached; bool expect; int calls; std::vector<u64> script; size_t at; };
void handler(GUtilTimeNotify* n, void* arg);
struct TimeCase {
    Case& c; Rng& r;
    GUtilTimeNotify* n = NULL;      // Alive instance
    int refs = 0; bool dead_timer = false; bool emitting = false; bool dispatched = false;
    Timer* t = NULL;
    std::vector<H*> hs;
    int max_handlers;
    TimeCase(Case& c_) : c(c_), r(c_.r) { max_handlers = 2 + (int)r.below(30); }
    ~TimeCase() { for (H* h : hs) delete h; }
    void gone() {
        // Nothing of the instance is left
        if (t) { refresh(t); CHECK(t->closed, "timer descriptor isn't closed"); t = NULL; }
        for (H* h : hs) h->attached = h->expect = false;
        n = NULL;
        CNT("gone");
    }
    void get() {
        const u64 before = creates;
        if (n) {
            GUtilTimeNotify* x = gutil_time_notify_new();
            vh_op("new (again)%s", emitting ? " from handler" : "");
            CHECK(x == n, "another instance is created");
            CHECK_EQ(creates, before, "number of timers");
            refs++;
            CNT("same_instance");
            return;
        }
        const int fault = r.pct(80) ? 0 : 1 + (int)r.below(2);
        static const int errs[] = { EMFILE, ENFILE, ENODEV, ENOMEM, EINVAL, ECANCELED };
        if (fault == 1) fail_create = errs[r.below(6)];
        if (fault == 2) fail_settime = errs[r.below(6)];
        vh_op("new fault=%d", fault);
        const size_t k = timers.size();
        n = gutil_time_notify_new();
        CHECK(n, "no instance");
        fail_create = fail_settime = 0;
        refs = 1;
        dead_timer = fault != 0;
        int open = 0;
        t = NULL;
        for (size_t i = k; i < timers.size(); i++) { refresh(timers[i]); if (!timers[i]->closed) { open++; t = timers[i]; } }
        if (fault == 1) CHECK_EQ(open, 0, "timers");
        else CHECK(fault == 2 ? open <= 1 : open == 1, "%d timers are open", open);
        if (!fault) CHECK(t->armed, "timer isn't set");
        CNT("instances");
    }
    void unref() {
        if (!refs) return;
        vh_op("unref %d%s", refs, emitting ? " from handler" : "");
        refs--;
        gutil_time_notify_unref(n);
        if (refs) return;
        if (emitting) CNT("last_unref_in_handler"); else gone();
    }
    void add() {
        H* h = new H();
        h->tc = this; h->idx = (int)hs.size(); h->calls = 0; h->expect = false; h->at = 0;
        for (size_t i = r.pct(25) ? r.below(5) : 0; i; i--) h->script.push_back(r.next());
        hs.push_back(h);
        vh_op("add handler %d%s", h->idx, emitting ? " from handler" : "");
        h->id = gutil_time_notify_add_handler(n, handler, h);
        CHECK(h->id, "handler isn't added");
        for (H* x : hs) CHECK(x == h || !x->attached || x->id != h->id, "handler id isn't unique");
        h->attached = true;
        CNT("handlers");
    }
    void remove() {
        std::vector<H*> a;
        for (H* h : hs) if (h->attached) a.push_back(h);
        if (a.empty()) return;
        H* h = r.pick(a);
        vh_op("remove handler %d%s", h->idx, emitting ? " from handler" : "");
        gutil_time_notify_remove_handler(n, h->id);
        h->attached = h->expect = false;
        if (emitting) CNT("removed_in_handler"); else CNT("removed");
    }
    void signal() {
        if (!t || dead_timer || t->hup || t->closed) return;
        vh_op("clock is set%s", emitting ? " from handler" : "");
        CHECK(t->armed, "timer isn't set any more");
        if (write(t->peer, "x", 1) != 1) CHECK(t->closed || errno == EAGAIN, "timer descriptor is closed");
        if (t->pending) CNT("coalesced");
        t->pending = true;
        CNT("indications");
    }
    void hangup() {
        if (!t || t->closed || t->hup || emitting) return;
        vh_op("hang up");
        t->hup = true;
        shutdown(t->peer, SHUT_RDWR);
        CNT("hangups");
    }
    void iterate() {
        // Expected calls of the handlers, unless something changes meanwhile
        vh_op("iterate");
        for (int round = 0; round < 1000; round++) {
            const bool fire = t && t->pending && !t->hup && !dead_timer && n;
            for (H* h : hs) { h->expect = fire && h->attached; h->calls = 0; }
            if (fire) t->pending = false;
            emitting = fire;
            const bool did = g_main_context_iteration(NULL, FALSE);
            emitting = false;
            if (n && !refs) gone();
            for (H* h : hs) if (h->expect) CHECK_EQ(h->calls, 1, "number of handler calls");
            if (fire) { CHECK(did, "nothing happened when the clock was set"); CNT("dispatched"); }
            if (!fire && !did) return;
            CHECK(round < 900, "event loop is spinning");
        }
    }
    void call(H* h, GUtilTimeNotify* who) {
        vh_op("handler %d is called", h->idx);
        CHECK(emitting, "handler %d is called without a reason", h->idx);
        CHECK(who == n, "wrong instance is passed to the handler");
        CHECK(h->expect, "handler %d is called after it was removed or too many times", h->idx);
        CHECK(++h->calls == 1, "handler %d is called again", h->idx);
        CNT("handler_calls");
        vh_nontrivial();
        std::vector<u64> script;
        if (h->at++ < 3) script = h->script;
        for (u64 op : script) step(op);
    }
    void step(u64 x) {
        switch (x % 16) {
        case 0: case 1: if ((int)hs.size() < max_handlers && n) add(); break;
        case 2: if (n) remove(); break;
        case 3: case 4: signal(); break;
        case 5: if (!emitting || refs > 1) { if (n) { unref(); } } break;
        case 6: if (n && refs) { vh_op("ref"); CHECK(gutil_time_notify_ref(n) == n, "ref"); refs++; } break;
        case 7: get(); break;
        case 8: if (emitting) { while (refs) unref(); } break;
        case 9: if (!emitting && (x >> 8) % 8 == 0) hangup(); break;
        case 10:
            CHECK_EQ(gutil_time_notify_add_handler(NULL, handler, this), 0ul, "handler of NULL");
            CHECK_EQ(gutil_time_notify_add_handler(n, NULL, this), 0ul, "NULL handler");
            gutil_time_notify_remove_handler(n, 0);
            gutil_time_notify_remove_handler(NULL, 1);
            gutil_time_notify_unref(NULL);
            CHECK(!gutil_time_notify_ref(NULL), "ref of NULL");
            CNT("null");
            break;
        case 11: if (emitting) { for (H* h : hs) if (h->calls && h->attached) { vh_op("remove itself %d", h->idx); gutil_time_notify_remove_handler(n, h->id); h->attached = false; CNT("removed_in_handler"); break; } } break;
        default: if (!emitting) { if (!n) get(); else if (x % 16 == 12) iterate(); else if (x % 16 == 13) { signal(); iterate(); } } break;
        }
        if (n) {
            if (t && !t->closed) { refresh(t); CHECK(!t->closed, "timer descriptor is closed too early"); }
        }
    }
    void run() {
        for (int k = 10 + (int)r.below(80); k; k--) step(r.next());
        while (refs) unref();
        int n = vh_iterate();
        CHECK_EQ(n, 0, "something is dispatched after the last reference is gone");
        for (Timer* x : timers) {
            refresh(x);
            CHECK(x->closed, "timer descriptor isn't closed");
            syscall(SYS_close, x->real);
            delete x;
        }
        timers.clear();
        vh_mix(hs.size());
    }
};
void handler(GUtilTimeNotify* n, void* arg) { H* h = (H*)arg; h->tc->call(h, n); }
void c30(Case& c) { high_fd = vh_high_fd(c); use_fd0 = !(c.idx % 11); { TimeCase t(c); t.run(); } if (fcntl(0, F_GETFD) < 0) (void)!open("/dev/null", O_RDONLY); }
VH_PROP(C30, c30);
}
