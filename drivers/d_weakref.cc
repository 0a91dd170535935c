// C28: weak references
#include "../harness/vh.h"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
extern "C" {
#include "gutil_weakref.h"
#include "gutil_misc.h"
}

namespace {
// Objects with a magic number which goes away together with them
enum { MAGIC = 0x5afe0b1e };
struct Info { int id; int finalized; std::vector<u64> script; struct WeakCase* wc; bool disposing; };
struct Obj { GObject parent; u32 magic; Info* info; };
struct ObjClass { GObjectClass parent; };
void dispose_hook(Obj* o);
// Objects are synchronized by GObject which isn't known to the race detector
#define NOTSAN __attribute__((no_sanitize("thread"), noinline))
NOTSAN u32 magic(Obj* o) { return *(volatile u32*)&o->magic; }
NOTSAN void set_magic(Obj* o, u32 x) { *(volatile u32*)&o->magic = x; }
NOTSAN Info* info(Obj* o) { return *(Info* volatile*)&o->info; }
G_DEFINE_TYPE(Obj, vh_obj, G_TYPE_OBJECT)
void vh_obj_init(Obj* o) { set_magic(o, MAGIC); }
void vh_obj_dispose(GObject* g) { dispose_hook((Obj*)g); G_OBJECT_CLASS(vh_obj_parent_class)->dispose(g); }
void vh_obj_finalize(GObject* g) {
    Obj* o = (Obj*)g;
    CHECK(magic(o) == MAGIC, "object is finalized twice");
    set_magic(o, 0xdeaddead);
    __atomic_fetch_add(&info(o)->finalized, 1, __ATOMIC_SEQ_CST);
    G_OBJECT_CLASS(vh_obj_parent_class)->finalize(g);
}
void vh_obj_class_init(ObjClass* k) { ((GObjectClass*)k)->dispose = vh_obj_dispose; ((GObjectClass*)k)->finalize = vh_obj_finalize; }

//------------------------------------------------- histories on a single thread
struct O { Obj* p; Info info; int refs; };
struct W { GUtilWeakRef* p; int refs; O* target; };
struct WeakCase {
    Case& c; Rng& r;
    std::vector<O*> objs; std::vector<W*> refs;
    int depth = 0;
    WeakCase(Case& c_) : c(c_), r(c_.r) {}
    ~WeakCase() { for (O* o : objs) delete o; for (W* w : refs) delete w; }
    O* alive(bool disposing_too = false) {
        std::vector<O*> a;
        for (O* o : objs) if (o->refs > 0) a.push_back(o);
        return a.empty() ? NULL : r.pick(a);
    }
    O* fresh() {
        O* o = new O();
        o->p = (Obj*)g_object_new(vh_obj_get_type(), NULL);
        o->refs = 1;
        o->info.id = (int)objs.size(); o->info.wc = this;
        for (size_t i = r.pct(20) ? r.below(4) : 0; i; i--) o->info.script.push_back(r.next());
        o->p->info = &o->info;
        objs.push_back(o);
        CNT("objects");
        return o;
    }
    W* any() { std::vector<W*> a; for (W* w : refs) if (w->refs > 0) a.push_back(w); return a.empty() ? NULL : r.pick(a); }
    void unref(O* o) {
        vh_op("unref object %d (%d)", o->info.id, o->refs);
        o->refs--;
        const bool last = !o->refs;
        if (last) {
            int n = 0;
            for (W* w : refs) if (w->target == o) { n++; w->target = NULL; }
            if (n) CNT("target_died"); 
            if (n > 1) CNT("several_references_cleared");
        }
        g_object_unref(o->p);
        CHECK_EQ(o->info.finalized, last ? 1 : 0, "object finalized");
    }
    void create() {
        O* o = r.pct(15) ? NULL : alive();
        W* w = new W();
        vh_op("new %d -> %d", (int)refs.size(), o ? o->info.id : -1);
        w->p = gutil_weakref_new(o ? o->p : NULL);
        CHECK(w->p, "no weak reference");
        w->refs = 1; w->target = o;
        refs.push_back(w);
        CNT("new");
    }
    void get(W* w) {
        gpointer p = gutil_weakref_get(w->p);
        vh_op("get %d", (int)(std::find(refs.begin(), refs.end(), w) - refs.begin()));
        CHECK(p == (w->target ? w->target->p : NULL), "weak reference returns %s", p ? w->target ? "wrong object" : "an object which is gone" : "NULL");
        if (!p) { CNT("got_null"); return; }
        CNT("got_object");
        vh_nontrivial();
        CHECK(((Obj*)p)->magic == MAGIC, "dead object");
        w->target->refs++;
        CHECK_EQ((int)w->target->p->parent.ref_count, w->target->refs, "number of object references");
        if (r.pct(75)) unref(w->target);
    }
    void step(u64 x) {
        switch (x % 12) {
        case 0: if (r.pct(40)) create(); break;
        case 1: if (r.pct(60)) fresh(); break;
        case 2: case 3: case 4: case 5: if (W* w = any()) get(w); break;
        case 6: case 7: if (W* w = any()) {
            O* o = r.pct(15) ? NULL : alive();
            vh_op("set %d -> %d", (int)(std::find(refs.begin(), refs.end(), w) - refs.begin()), o ? o->info.id : -1);
            gutil_weakref_set(w->p, o ? o->p : NULL);
            if (w->target && o != w->target) CNT("retargeted");
            w->target = o;
            CNT("set");
            break; }
            break;
        case 8: if (W* w = any()) { vh_op("ref"); CHECK(gutil_weakref_ref(w->p) == w->p, "ref"); w->refs++; CNT("ref"); } break;
        case 9: if (W* w = any()) { vh_op("unref %d", w->refs); if (!--w->refs) { if (w->target) CNT("reference_died_first"); w->target = NULL; } gutil_weakref_unref(w->p); CNT("unref"); } break;
        case 10: if (O* o = alive()) { g_object_ref(o->p); o->refs++; } break;
        case 11: if (O* o = alive()) unref(o); break;
        }
        for (O* o : objs) if (o->refs > 0) {
            CHECK_EQ((int)o->p->parent.ref_count, o->refs, "number of object references");
            CHECK(!o->info.finalized, "object is finalized too early");
        }
    }
    void run() {
        for (int n = 20 + (int)r.below(100); n; n--) step(r.next());
        for (W* w : refs) if (w->refs > 0) { get(w); vh_mix(w->target ? w->target->info.id : -1); }
        const bool first = r.pct(50);
        if (first) drop();
        while (O* o = alive()) unref(o);
        drop();
        for (O* o : objs) CHECK_EQ(o->info.finalized, 1, "object finalized");
    }
    void drop() { for (W* w : refs) while (w->refs > 0) { if (r.pct(50)) get(w); if (!--w->refs) w->target = NULL; gutil_weakref_unref(w->p); } }
};
void dispose_hook(Obj* o) {
    Info* i = info(o);
    WeakCase* wc = i->wc;
    if (!wc || wc->depth >= 3 || i->disposing) return;
    i->disposing = true;
    wc->depth++;
    for (u64 x : i->script) { CNT("used_from_dispose"); wc->step(x); }
    wc->depth--;
}

//--------------------------------------------------------------------- threads
// One thread keeps changing the object and dropping its only references,
// others are getting it
struct Shared {
    GUtilWeakRef* w;
    std::vector<Info*> infos; std::vector<Obj*> objs; std::vector<int> may_die;
    int begun, completed;       // Which object set() was called for/returned
    int stop, n;
    pthread_barrier_t bar;
};
struct Getter { Shared* s; u64 seed; pthread_t t; u64 got, null, stale, changing; };
int ld(int& x) { return __atomic_load_n(&x, __ATOMIC_SEQ_CST); }
void st(int& x, int v) { __atomic_store_n(&x, v, __ATOMIC_SEQ_CST); }
void pause_a_bit(Rng& r) { switch (r.below(8)) { case 0: sched_yield(); break; case 1: case 2: for (volatile int i = (int)r.below(300); i > 0; i--); break; } }
void* getter(void* p) {
    Getter& g = *(Getter*)p;
    Shared* s = g.s;
    Rng r(g.seed);
    std::vector<Obj*> kept;
    GUtilWeakRef* w = gutil_weakref_ref(s->w);
    pthread_barrier_wait(&s->bar);
    vh_delays(true);
    while (!ld(s->stop)) {
        const int from = ld(s->completed);
        Obj* o = (Obj*)gutil_weakref_get(w);
        const int to = ld(s->begun);
        if (o) {
            CHECK(magic(o) == MAGIC, "object which is gone is returned");
            CHECK(info(o)->id >= from && info(o)->id <= to, "object %d is returned when it should be %d..%d", info(o)->id, from, to);
            CHECK(!ld(info(o)->finalized), "finalized object is returned");
            if (info(o)->id != to) g.stale++;
            g.got++;
            if (r.pct(10) && kept.size() < 4) kept.push_back(o);
            else { pause_a_bit(r); CHECK(magic(o) == MAGIC && !ld(info(o)->finalized), "object is gone in spite of being referenced"); g_object_unref(o); }
        } else {
            g.null++;
            // One of those which it could have pointed to must have been dying
            bool dead = from < 0;
            for (int i = from; i <= to && !dead; i++) dead = ld(s->may_die[i]);
            CHECK(dead, "objects %d..%d are alive and NULL is returned", from, to);
            if (from != to) g.changing++;
        }
        if (r.pct(20) && kept.size()) { Obj* k = kept.back(); kept.pop_back(); CHECK(magic(k) == MAGIC && !ld(info(k)->finalized), "object is gone in spite of being referenced"); g_object_unref(k); }
        if (r.pct(25)) { gutil_weakref_ref(w); pause_a_bit(r); gutil_weakref_unref(w); }
        pause_a_bit(r);
    }
    for (Obj* k : kept) { CHECK(magic(k) == MAGIC && !ld(info(k)->finalized), "object is gone in spite of being referenced"); g_object_unref(k); }
    gutil_weakref_unref(w);
    vh_delays(false);
    return NULL;
}
void threads(Case& c)
{
    Rng& r = c.r;
    Shared s;
    const int n = 1 + (int)r.below(3);
    s.n = 20 + (int)r.below(60);
    s.stop = 0; s.begun = s.completed = -1;
    for (int i = 0; i < s.n; i++) {
        Info* info = new Info(); info->id = i; info->finalized = 0; info->wc = NULL; info->disposing = false;
        Obj* o = (Obj*)g_object_new(vh_obj_get_type(), NULL);
        o->info = info;
        s.infos.push_back(info); s.objs.push_back(o); s.may_die.push_back(0);
    }
    s.w = gutil_weakref_new(NULL);
    vh_op("%d threads %d objects", n, s.n);
    pthread_barrier_init(&s.bar, NULL, n + 1);
    std::vector<Getter> g(n);
    for (int i = 0; i < n; i++) { g[i] = Getter(); g[i].s = &s; g[i].seed = r.next(); if (pthread_create(&g[i].t, NULL, getter, &g[i])) vh_fail("harness", "pthread_create"); }
    pthread_barrier_wait(&s.bar);
    vh_delays(true);
    // The reference is quite often released before the object
    int drop_ref_at = r.pct(30) ? (int)r.below(s.n) : s.n;
    bool have = true;
    for (int i = 0; i < s.n; i++) {
        if (have && i >= drop_ref_at) { gutil_weakref_unref(s.w); have = false; }
        if (have) {
            st(s.begun, i);
            gutil_weakref_set(s.w, s.objs[i]);
            st(s.completed, i);
        }
        pause_a_bit(r);
        if (r.pct(80)) {
            st(s.may_die[i], 1);
            g_object_unref(s.objs[i]);
            s.objs[i] = NULL;
        }
        pause_a_bit(r);
        if (r.pct(10)) sched_yield();
    }
    vh_delays(false);
    st(s.stop, 1);
    for (Getter& x : g) pthread_join(x.t, NULL);
    pthread_barrier_destroy(&s.bar);
    u64 got = 0;
    for (Getter& x : g) { got += x.got; CNTN("thread_got_object", x.got); CNTN("thread_got_null", x.null); CNTN("thread_got_previous", x.stale); CNTN("thread_got_null_while_changing", x.changing); }
    for (Obj* o : s.objs) if (o) { CHECK_EQ((int)o->parent.ref_count, 1, "number of object references"); g_object_unref(o); }
    if (have) gutil_weakref_unref(s.w);
    for (Info* i : s.infos) { CHECK_EQ(i->finalized, 1, "object finalized"); delete i; }
    CNT("thread_cases");
    if (got) vh_nontrivial();
    vh_key(r.next());
}
// Several threads change the target, all objects being alive
struct Setter { GUtilWeakRef* w; Obj** mine; Obj** all; int n, total, i; u64 seed, got, others; pthread_barrier_t* bar; pthread_t t; Obj* last; };
void* setter(void* p) {
    Setter& s = *(Setter*)p;
    Rng r(s.seed);
    pthread_barrier_wait(s.bar);
    vh_delays(true);
    for (int k = 0; k < 300; k++) {
        if (r.pct(50)) { s.last = s.mine[r.below(s.n)]; gutil_weakref_set(s.w, s.last); }
        pause_a_bit(r);
        Obj* o = (Obj*)gutil_weakref_get(s.w);
        CHECK(o || !s.last, "NULL is returned, but there is no way it could have been set");
        if (!o) continue;
        int i = 0;
        while (i < s.total && s.all[i] != o) i++;
        CHECK(i < s.total, "unknown object is returned");
        CHECK(magic(o) == MAGIC, "object which is gone is returned");
        s.got++;
        if (i / s.n != s.i) s.others++;
        g_object_unref(o);
    }
    vh_delays(false);
    return NULL;
}
void setters(Case& c)
{
    Rng& r = c.r;
    const int n = 2 + (int)r.below(3), k = 1 + (int)r.below(4);
    std::vector<Obj*> objs;
    std::vector<Info*> infos;
    for (int i = 0; i < n * k; i++) {
        Info* info = new Info(); info->id = i; info->finalized = 0; info->wc = NULL; info->disposing = false;
        Obj* o = (Obj*)g_object_new(vh_obj_get_type(), NULL);
        o->info = info;
        objs.push_back(o); infos.push_back(info);
    }
    GUtilWeakRef* w = gutil_weakref_new(r.pct(50) ? objs[0] : NULL);
    vh_op("%d threads set %d objects each", n, k);
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, NULL, n);
    std::vector<Setter> t(n);
    for (int i = 0; i < n; i++) { t[i] = Setter(); t[i].w = w; t[i].mine = &objs[i * k]; t[i].all = objs.data(); t[i].n = k; t[i].total = n * k; t[i].i = i; t[i].seed = r.next(); t[i].bar = &bar; }
    for (Setter& s : t) if (pthread_create(&s.t, NULL, setter, &s)) vh_fail("harness", "pthread_create");
    for (Setter& s : t) pthread_join(s.t, NULL);
    pthread_barrier_destroy(&bar);
    Obj* o = (Obj*)gutil_weakref_get(w);
    bool found = false, any = false;
    u64 others = 0;
    for (Setter& s : t) { found |= o == s.last; any |= s.last != NULL; others += s.others; CNTN("set_by_others", s.others); }
    CHECK(!any || found, "the weak reference points to something which was not the last one set by any thread");
    if (o) g_object_unref(o);
    // Those which aren't the target don't take it away when they go
    for (Obj* x : objs) if (x != o) { CHECK_EQ((int)x->parent.ref_count, 1, "number of object references"); g_object_unref(x); }
    if (o) {
        Obj* again = (Obj*)gutil_weakref_get(w);
        CHECK(again == o, "weak reference was cleared by the death of another object");
        g_object_unref(again);
        CHECK_EQ((int)o->parent.ref_count, 1, "number of object references");
        g_object_unref(o);
    }
    CHECK(!gutil_weakref_get(w), "dead object is returned");
    gutil_weakref_unref(w);
    for (Info* i : infos) { CHECK_EQ(i->finalized, 1, "object finalized"); delete i; }
    CNT("setter_cases");
    if (others) vh_nontrivial();
    vh_key(r.next());
}
void c28(Case& c)
{
    // The second half of the numbers
    if (c.idx >> 41 & 1) { if (c.idx % 4 == 3) setters(c); else threads(c); }
    else { WeakCase w(c); w.run(); }
}
VH_PROP(C28, c28);
}
