// C29: references are taken and released by several threads
#include "../harness/vh.h"
#include <pthread.h>
#include <sched.h>
#include <sys/inotify.h>
#include <unistd.h>
extern "C" {
#include "gutil_history.h"
#include "gutil_idlepool.h"
#include "gutil_idlequeue.h"
#include "gutil_inotify.h"
#include "gutil_intarray.h"
#include "gutil_ints.h"
#include "gutil_ring.h"
#include "gutil_timenotify.h"
#include "gutil_weakref.h"
}

namespace {
enum Type { RING, HISTORY, POOL, QUEUE, INT_ARRAY, INTS, SUB_INTS, WEAKREF, N_TSAN, TIME_NOTIFY = N_TSAN, WATCH, N_TYPES };
const char* const type_names[] = { "ring", "history", "idle pool", "idle queue", "int array", "ints", "sub-range of ints", "weak reference", "time notify", "inotify watch" };
enum { N_VALUES = 8 };
struct Item {
    Type type; void* p; int n_data;
    int destroyed[4];           // number of times data was destroyed
    int held;                   // references which are known to be held
    int vals[N_VALUES]; int* heap;
    GObject* obj;
};
int ld(int& x) { return __atomic_load_n(&x, __ATOMIC_SEQ_CST); }
int add(int& x, int n) { return __atomic_add_fetch(&x, n, __ATOMIC_SEQ_CST); }
struct Cookie { Item* it; int k; };
void destroyed(gpointer p) {
    int* d = (int*)p;
    const int n = add(*d, 1);
    CHECK(n == 1, "contents destroyed %d times", n);
    CNT("contents_destroyed");
}
void destroyed_obj(gpointer p, GObject*) { destroyed(p); }
void free_vals(gpointer p) { Item* it = (Item*)p; destroyed(&it->destroyed[0]); memset(it->heap, 0xdd, sizeof(it->vals)); free(it->heap); }
void never(gpointer) { vh_fail("oracle", "callback is called"); }
void nothing(GUtilInotifyWatch*, guint, guint, const char*, void*) {}

void ref(Item* it) {
    add(it->held, 1);
    void* p = it->p;
    switch (it->type) {
    case RING: p = gutil_ring_ref((GUtilRing*)p); break;
    case HISTORY: p = gutil_int_history_ref((GUtilIntHistory*)p); break;
    case POOL: p = gutil_idle_pool_ref((GUtilIdlePool*)p); break;
    case QUEUE: p = gutil_idle_queue_ref((GUtilIdleQueue*)p); break;
    case INT_ARRAY: p = gutil_int_array_ref((GUtilIntArray*)p); break;
    case INTS: case SUB_INTS: p = gutil_ints_ref((GUtilInts*)p); break;
    case WEAKREF: p = gutil_weakref_ref((GUtilWeakRef*)p); break;
    case TIME_NOTIFY: p = gutil_time_notify_ref((GUtilTimeNotify*)p); break;
    case WATCH: p = gutil_inotify_watch_ref((GUtilInotifyWatch*)p); break;
    default: break;
    }
    CHECK(p == it->p, "%s: ref returned something else", type_names[it->type]);
}
void check(Item* it, const char* what) {
    for (int i = 0; i < it->n_data; i++) CHECK(!ld(it->destroyed[i]), "%s: contents are destroyed while references are held (%s)", type_names[it->type], what);
}
// Whatever is safe to look at without synchronization
void look(Item* it) {
    switch (it->type) {
    case RING: CHECK_EQ(gutil_ring_size((GUtilRing*)it->p), it->n_data, "size of the ring"); for (int i = 0; i < it->n_data; i++) CHECK(gutil_ring_data_at((GUtilRing*)it->p, i) == &it->destroyed[i], "contents of the ring"); break;

    case QUEUE: CHECK(gutil_idle_queue_contains_tag((GUtilIdleQueue*)it->p, 7), "idle queue is empty"); break;
    case INT_ARRAY: CHECK(gutil_int_array_find((GUtilIntArray*)it->p, it->vals[3]) == 3, "contents of the array"); break;
    case INTS: case SUB_INTS: { guint n; const int* d = gutil_ints_get_data((GUtilInts*)it->p, &n); const int off = it->type == INTS ? 0 : 2; CHECK(n == (guint)N_VALUES - 2 * off && !memcmp(d, it->vals + off, n * sizeof(int)), "contents of ints");
        CHECK_EQ(gutil_ints_find((GUtilInts*)it->p, it->vals[4]), 4 - off, "contents of ints"); break; }
    case WEAKREF: { GObject* o = (GObject*)gutil_weakref_get((GUtilWeakRef*)it->p); CHECK(o == it->obj, "object of the weak reference"); g_object_unref(o); break; }
    default: break;
    }
}
// Extra references through other functions
void derive(Item* it, Rng& r) {
    if (it->type == INTS || it->type == SUB_INTS) {
        GUtilInts* s = gutil_ints_new_from_ints((GUtilInts*)it->p, 1, 3);
        const int off = it->type == INTS ? 1 : 3;
        CHECK(s && gutil_ints_get_count(s) == 3 && !memcmp(gutil_ints_get_data(s, NULL), it->vals + off, 3 * sizeof(int)), "contents of a sub-range");
        if (r.pct(50)) gutil_ints_unref(s);
        else {
            guint n = 0;
            int* d = gutil_ints_unref_to_data(s, &n);
            CHECK(n == 3 && !memcmp(d, it->vals + off, 3 * sizeof(int)), "data of a sub-range");
            memset(d, 0, n * sizeof(int));
            g_free(d);
        }
        CNT("sub_ranges");
    }
}
void unref(Item* it, bool to_data) {
    check(it, "before unref");
    const int left = add(it->held, -1);
    CHECK(left >= 0, "harness");
    void* p = it->p;
    switch (it->type) {
    case RING: gutil_ring_unref((GUtilRing*)p); break;
    case HISTORY: gutil_int_history_unref((GUtilIntHistory*)p); break;
    case POOL: gutil_idle_pool_unref((GUtilIdlePool*)p); break;
    case QUEUE: gutil_idle_queue_unref((GUtilIdleQueue*)p); break;
    case INT_ARRAY: gutil_int_array_unref((GUtilIntArray*)p); break;
    case INTS: case SUB_INTS:
        if (to_data) {
            const int off = it->type == INTS ? 0 : 2;
            guint n = 0;
            int* d = gutil_ints_unref_to_data((GUtilInts*)p, &n);
            CHECK(n == (guint)N_VALUES - 2 * off && !memcmp(d, it->vals + off, n * sizeof(int)), "unref_to_data returns wrong data");
            memset(d, 0, n * sizeof(int));
            g_free(d);
            CNT("unref_to_data");
        } else gutil_ints_unref((GUtilInts*)p);
        break;
    case WEAKREF: gutil_weakref_unref((GUtilWeakRef*)p); break;
    case TIME_NOTIFY: gutil_time_notify_unref((GUtilTimeNotify*)p); break;
    case WATCH: gutil_inotify_watch_unref((GUtilInotifyWatch*)p); break;
    default: break;
    }
    CNT("unref");
}
Item* create(Type t, Rng& r) {
    Item* it = new Item();
    memset(it, 0, sizeof(*it));
    it->type = t; it->held = 1;
    for (int i = 0; i < N_VALUES; i++) it->vals[i] = (int)r.next() * N_VALUES + i;
    switch (t) {
    case RING: { GUtilRing* g = gutil_ring_new_full(0, -1, destroyed); it->n_data = 1 + (int)r.below(4); for (int i = 0; i < it->n_data; i++) gutil_ring_put(g, &it->destroyed[i]); it->p = g; break; }
    case HISTORY: { GUtilIntHistory* h = gutil_int_history_new(5, 1000); for (int i = 0; i < 3; i++) gutil_int_history_add(h, i); it->p = h; break; }
    case POOL: { GUtilIdlePool* p = gutil_idle_pool_new(); it->n_data = (int)r.below(4); for (int i = 0; i < it->n_data; i++) gutil_idle_pool_add(p, &it->destroyed[i], destroyed); it->p = p; break; }
    case QUEUE: { GUtilIdleQueue* q = gutil_idle_queue_new(); it->n_data = 1 + (int)r.below(3); for (int i = 0; i < it->n_data; i++) gutil_idle_queue_add_tag_full(q, 7, never, &it->destroyed[i], destroyed); it->p = q; break; }
    case INT_ARRAY: it->p = gutil_int_array_new_from_vals(it->vals, N_VALUES); break;
    case INTS: it->n_data = 1; it->heap = (int*)malloc(sizeof(it->vals)); memcpy(it->heap, it->vals, sizeof(it->vals)); it->p = gutil_ints_new_with_free_func(it->heap, N_VALUES, free_vals, it); break;
    case SUB_INTS: {
        it->n_data = 1; it->heap = (int*)malloc(sizeof(it->vals)); memcpy(it->heap, it->vals, sizeof(it->vals));
        GUtilInts* whole = gutil_ints_new_with_free_func(it->heap, N_VALUES, free_vals, it);
        it->p = gutil_ints_new_from_ints(whole, 2, N_VALUES - 4);
        gutil_ints_unref(whole);
        break; }
    case WEAKREF: it->obj = (GObject*)g_object_new(G_TYPE_OBJECT, NULL); it->p = gutil_weakref_new(it->obj); break;
    case TIME_NOTIFY: it->n_data = 1; it->p = gutil_time_notify_new(); g_object_weak_ref(G_OBJECT(it->p), destroyed_obj, &it->destroyed[0]); break;
    case WATCH: it->n_data = 1; it->p = gutil_inotify_watch_new(vh_scratch().c_str(), IN_CREATE); if (!it->p) vh_fail("harness", "no watch"); g_object_weak_ref(G_OBJECT(it->p), destroyed_obj, &it->destroyed[0]); break;
    default: break;
    }
    return it;
}
struct Step { int op, item; };
struct Team { std::vector<Item*> items; int n, stage; };
struct Worker { Team* team; std::vector<int> refs; std::vector<Step> plan; std::vector<int> order; std::vector<bool> to_data; u64 seed; int id; pthread_t t; };
// All threads come here together and continue at the same time
void meet(Team* t, int k) {
    __atomic_add_fetch(&t->stage, 1, __ATOMIC_SEQ_CST);
    for (int i = 0; ld(t->stage) < k * t->n; i++) if (i > 100) sched_yield();
}
void* work(void* arg) {
    Worker& w = *(Worker*)arg;
    Team* t = w.team;
    Rng r(w.seed);
    int stage = 0;
    meet(t, ++stage);
    vh_delays(true);
    for (Step& s : w.plan) {
        Item* it = t->items[s.item];
        switch (s.op) {
        case 0: ref(it); w.refs[s.item]++; break;
        case 1: if (w.refs[s.item] > 1) { w.refs[s.item]--; unref(it, false); } break;
        case 2: check(it, "while held"); look(it); break;
        case 3: derive(it, r); break;
        }
    }
    // The last one, at about the same time
    for (int i : w.order) {
        Item* it = t->items[i];
        while (w.refs[i] > 1) { w.refs[i]--; unref(it, false); }
        vh_delays(false);
        meet(t, ++stage);
        vh_delays(true);
        unref(it, w.to_data[i]);
    }
    vh_delays(false);
    return NULL;
}
void c29(Case& c)
{
    Rng& r = c.r;
    Team t; t.n = 2 + (int)r.below(3); t.stage = 0;
    const bool tsan = vh_is_tsan();
    const int types = tsan ? N_TSAN : N_TYPES;
    const int count = 4 + (int)r.below(12);
    int per[N_TYPES] = { 0 };
    GObject* objs = NULL; (void)objs;
    for (int i = 0; i < count; i++) {
        Type type = (Type)r.below(types);
        // These share something else
        if ((type == TIME_NOTIFY || type == WATCH) && per[type]) type = (Type)r.below(N_TSAN);
        per[type]++;
        t.items.push_back(create(type, r));
        vh_op("%s", type_names[type]);
    }
    std::vector<int> order;
    for (int i = 0; i < count; i++) order.push_back(i);
    std::vector<Worker> w(t.n);
    for (int k = 0; k < t.n; k++) {
        Worker& x = w[k];
        x.team = &t; x.id = k; x.seed = r.next(); x.order = order;
        for (int i = 0; i < count; i++) { if (k) ref(t.items[i]); x.refs.push_back(1); x.to_data.push_back(r.pct(20)); }
        for (int n = (int)r.below(60); n; n--) { Step s; s.op = (int)r.below(4); s.item = (int)r.below(count); x.plan.push_back(s); }
        vh_op("thread %d: %u steps", k, (unsigned)x.plan.size());
        for (Step& s : x.plan) vh_key(s.op * 16 + s.item);
    }
    for (int k = 1; k < t.n; k++) if (pthread_create(&w[k].t, NULL, work, &w[k])) vh_fail("harness", "pthread_create");
    work(&w[0]);
    for (int k = 1; k < t.n; k++) pthread_join(w[k].t, NULL);
    // Event source of a non-empty idle pool has one more reference
    vh_iterate();
    for (Item* it : t.items) {
        for (int i = 0; i < it->n_data; i++) CHECK_EQ(it->destroyed[i], 1, type_names[it->type]);
        if (it->obj) { CHECK_EQ(it->obj->ref_count, 1u, "references of the object"); g_object_unref(it->obj); }
        CNT("objects");
        delete it;
    }
    static const char* const names[] = { "type_ring", "type_history", "type_pool", "type_queue", "type_int_array", "type_ints", "type_sub_ints", "type_weakref", "type_time_notify", "type_watch" };
    for (int i = 0; i < N_TYPES; i++) if (per[i]) __atomic_fetch_add(&vh_counters[vh_counter(names[i])], per[i], __ATOMIC_RELAXED);
    vh_nontrivial();
}
VH_PROP(C29, c29);
}
