// C31: NULL is tolerated in place of every object, vector, array, data block,
// callback and optional output. A table of calls with one or more of their
// arguments omitted (the others being random and belonging to live objects)
// with the result expected from each; live objects of all types are compared
// with their models after every call.
#include "../harness/vh.h"
extern "C" {
#include "gutil_datapack.h"
#include "gutil_history.h"
#include "gutil_idlepool.h"
#include "gutil_idlequeue.h"
#include "gutil_inotify.h"
#include "gutil_intarray.h"
#include "gutil_ints.h"
#include "gutil_log.h"
#include "gutil_misc.h"
#include "gutil_objv.h"
#include "gutil_ring.h"
#include "gutil_strv.h"
#include "gutil_timenotify.h"
#include "gutil_weakref.h"
}

static int n_freed, n_run;
static void count_free(gpointer) { n_freed++; }
static void count_run(gpointer) { n_run++; }
static void quiet_proc(const char*, int, const char*, va_list) {}
static void watch_fn(GUtilInotifyWatch*, guint, guint, const char*, void* p) { ++*(int*)p; }
static void time_fn(GUtilTimeNotify*, void* p) { ++*(int*)p; }
static gint64 fake_now;
static gint64 fake_time() { return fake_now; }

// Live objects which must not be affected
struct Live {
    GUtilRing* ring; std::vector<gpointer> mring;
    GUtilIntHistory* hist; std::vector<int> mhist;
    GUtilIdleQueue* queue; int queued;
    GUtilIdlePool* pool; int pooled;
    GUtilIntArray* arr; std::vector<int> marr;
    GUtilInts* ints; std::vector<int> mints;
    GObject* obj[2]; int mref[2];
    GObject** objv;
    GStrV* sv; std::vector<std::string> msv;
    GUtilWeakRef* weak;
    GBytes* bytes; std::string mbytes;
    GUtilData data; std::string mdata;
    GVariant* var; GPtrArray* pa;
    GUtilInotifyWatch* watch; int watched;
    int want_free, want_run;          // Done by now
    int pend_free, pend_run;          // To be done by the main loop
};
static Live* L;

static void live_check(const char* after)
{
    Live& l = *L;
    CHECK(gutil_ring_size(l.ring) == (int)l.mring.size(), "%s changed the size of an unrelated ring", after);
    for (size_t i = 0; i < l.mring.size(); i++)
        CHECK(gutil_ring_data_at(l.ring, i) == l.mring[i], "%s changed an unrelated ring", after);
    CHECK(gutil_ring_max_size(l.ring) == 100, "%s changed the limit of an unrelated ring", after);
    CHECK(gutil_int_history_size(l.hist) == l.mhist.size(), "%s changed the size of an unrelated history", after);
    if (!l.mhist.empty()) {
        std::vector<int> s(l.mhist); std::sort(s.begin(), s.end());
        int m = gutil_int_history_median(l.hist, 0);
        CHECK(m >= s.front() && m <= s.back(), "%s changed an unrelated history", after);
    }
    for (int i = 1; i <= l.queued; i++)
        CHECK(gutil_idle_queue_contains_tag(l.queue, i), "%s affected an unrelated queue", after);
    CHECK(n_freed == l.want_free, "%s: %d objects freed instead of %d", after, n_freed, l.want_free);
    CHECK(n_run == l.want_run, "%s: %d callbacks run instead of %d", after, n_run, l.want_run);
    CHECK(l.arr->count == l.marr.size() && !(l.arr->count && memcmp(l.arr->data, l.marr.data(), l.marr.size() * 4)),
        "%s changed an unrelated array", after);
    guint n; const int* d = gutil_ints_get_data(l.ints, &n);
    CHECK(n == l.mints.size() && !(n && memcmp(d, l.mints.data(), n * 4)), "%s changed unrelated ints", after);
    for (int i = 0; i < 2; i++)
        CHECK((int)l.obj[i]->ref_count == l.mref[i], "%s: %d references to object %d instead of %d", after, l.obj[i]->ref_count, i, l.mref[i]);
    CHECK(l.objv[0] == l.obj[0] && l.objv[1] == l.obj[1] && !l.objv[2], "%s changed an unrelated object vector", after);
    CHECK(gutil_strv_length(l.sv) == l.msv.size(), "%s changed an unrelated string vector", after);
    for (size_t i = 0; i < l.msv.size(); i++) CHECK(l.msv[i] == l.sv[i], "%s changed an unrelated string vector", after);
    gsize bn; const void* b = g_bytes_get_data(l.bytes, &bn);
    CHECK(bn == l.mbytes.size() && !(bn && memcmp(b, l.mbytes.data(), bn)), "%s changed unrelated bytes", after);
    CHECK(l.data.size == l.mdata.size() && !(l.data.size && memcmp(l.data.bytes, l.mdata.data(), l.data.size)), "%s changed unrelated data", after);
    GObject* o = (GObject*)gutil_weakref_get(l.weak);
    CHECK(o == l.obj[0], "%s changed an unrelated weak reference", after);
    g_object_unref(o);
}

struct Ctx { Rng& r; const char* name; };
typedef void (*Fn)(Ctx& x);
struct Entry { const char* name; Fn fn; };
#define OK(cond) CHECK(cond, "%s: wrong result (%s)", x.name, #cond)
static int rint(Ctx& x) { return x.r.int32(); }
static guint ruint(Ctx& x) { return (guint)x.r.int32(); }
static gpointer rptr(Ctx& x) { return (gpointer)(uintptr_t)(x.r.next() | 1); }
static GDestroyNotify rfree(Ctx& x) { return x.r.pct(50) ? count_free : NULL; }
static const char* rstr(Ctx& x)
{
    static const char* s[] = { "", "a", "abc", "12", "0x1f", "-7", "zz" };
    return s[x.r.below(7)];
}
static GUtilData* rdata(Ctx& x, GUtilData* d)
{
    if (x.r.pct(30)) { d->bytes = NULL; d->size = 0; } else *d = L->data;
    return d;
}

static const Entry table[] = {
#define T(text, ...) { text, [](Ctx& x) { (void)x; __VA_ARGS__ } },
    // Ring
    T("ring_ref(NULL)", OK(!gutil_ring_ref(NULL));)
    T("ring_unref(NULL)", gutil_ring_unref(NULL);)
    T("ring_set_free_func(NULL)", gutil_ring_set_free_func(NULL, rfree(x));)
    T("ring_max_size(NULL)", OK(gutil_ring_max_size(NULL) == 0);)
    T("ring_set_max_size(NULL)", gutil_ring_set_max_size(NULL, rint(x));)
    T("ring_size(NULL)", OK(gutil_ring_size(NULL) == 0);)
    T("ring_clear(NULL)", gutil_ring_clear(NULL);)
    T("ring_compact(NULL)", gutil_ring_compact(NULL);)
    T("ring_reserve(NULL)", OK(!gutil_ring_reserve(NULL, (int)x.r.below(INT_MAX)));)
    T("ring_can_put(NULL)", OK(!gutil_ring_can_put(NULL, rint(x)));)
    T("ring_put(NULL)", OK(!gutil_ring_put(NULL, x.r.pct(50) ? rptr(x) : NULL));)
    T("ring_put_front(NULL)", OK(!gutil_ring_put_front(NULL, x.r.pct(50) ? rptr(x) : NULL));)
    T("ring_get(NULL)", OK(!gutil_ring_get(NULL));)
    T("ring_get_last(NULL)", OK(!gutil_ring_get_last(NULL));)
    T("ring_drop(NULL)", OK(gutil_ring_drop(NULL, rint(x)) == 0);)
    T("ring_drop_last(NULL)", OK(gutil_ring_drop_last(NULL, rint(x)) == 0);)
    T("ring_data_at(NULL)", OK(!gutil_ring_data_at(NULL, rint(x)));)
    T("ring_flatten(NULL)", gint n = rint(x); OK(!gutil_ring_flatten(NULL, &n)); OK(n == 0);)
    T("ring_flatten(NULL,NULL)", OK(!gutil_ring_flatten(NULL, NULL));)
    T("ring_flatten(ring,NULL)", gpointer* d = gutil_ring_flatten(L->ring, NULL); OK(!d == L->mring.empty());
        for (size_t i = 0; i < L->mring.size(); i++) OK(d[i] == L->mring[i]);)
    T("ring_set_free_func(ring,NULL)", gutil_ring_set_free_func(L->ring, NULL);
        if (L->mring.size() < 60) { gpointer p = rptr(x); OK(gutil_ring_put(L->ring, p)); OK(gutil_ring_drop_last(L->ring, 1) == 1); }
        gutil_ring_set_free_func(L->ring, count_free);)
    T("ring_put(ring,NULL)", if (L->mring.size() < 60) { OK(gutil_ring_put(L->ring, NULL)); L->mring.push_back(NULL); })
    T("ring_put_front(ring,NULL)", if (L->mring.size() < 60) { OK(gutil_ring_put_front(L->ring, NULL)); L->mring.insert(L->mring.begin(), (gpointer)NULL); })
    T("ring_new_full(NULL)", GUtilRing* r = gutil_ring_new_full((int)x.r.below(5), (int)x.r.below(5), NULL);
        for (int i = 0; i < 6; i++) gutil_ring_put(r, rptr(x));
        gutil_ring_clear(r); gutil_ring_put(r, NULL); gutil_ring_unref(r);)
    // History
    T("int_history_ref(NULL)", OK(!gutil_int_history_ref(NULL));)
    T("int_history_unref(NULL)", gutil_int_history_unref(NULL);)
    T("int_history_size(NULL)", OK(gutil_int_history_size(NULL) == 0);)
    T("int_history_interval(NULL)", OK(gutil_int_history_interval(NULL) == 0);)
    T("int_history_clear(NULL)", gutil_int_history_clear(NULL);)
    T("int_history_add(NULL)", OK(gutil_int_history_add(NULL, rint(x)) == 0);)
    T("int_history_median(NULL)", int v = rint(x); OK(gutil_int_history_median(NULL, v) == v);)
    T("int_history_new_full(NULL time)", GUtilIntHistory* h = gutil_int_history_new_full(5, G_GINT64_CONSTANT(3600000000), NULL);
        int v = rint(x); gutil_int_history_add(h, v); OK(gutil_int_history_size(h) == 1);
        OK(gutil_int_history_median(h, ~v) == v); gutil_int_history_unref(h);)
    // Idle queue
    T("idle_queue_ref(NULL)", OK(!gutil_idle_queue_ref(NULL));)
    T("idle_queue_unref(NULL)", gutil_idle_queue_unref(NULL);)
    T("idle_queue_free(NULL)", gutil_idle_queue_free(NULL);)
    T("idle_queue_contains_tag(NULL)", OK(!gutil_idle_queue_contains_tag(NULL, x.r.below(20)));)
    T("idle_queue_cancel_tag(NULL)", OK(!gutil_idle_queue_cancel_tag(NULL, x.r.below(20)));)
    T("idle_queue_cancel_all(NULL)", gutil_idle_queue_cancel_all(NULL);)
    T("idle_queue_add(run,NULL data)", gutil_idle_queue_add(L->queue, count_run, NULL); L->pend_run++; L->queued = -1;)
    T("idle_queue_add_tag_full(NULL free)", if (L->queued >= 0) { gutil_idle_queue_add_tag_full(L->queue, ++L->queued, count_run, rptr(x), NULL); L->pend_run++; })
    T("idle_queue_add_full(NULL run)", gutil_idle_queue_add_full(L->queue, NULL, rptr(x), count_free); L->pend_free++; L->queued = -1;)
    T("idle_queue_add_tag(NULL run)", if (L->queued >= 0) gutil_idle_queue_add_tag(L->queue, ++L->queued, NULL, rptr(x));)
    // Pool
    T("idle_queue_add(NULL)", gutil_idle_queue_add(NULL, x.r.pct(50) ? count_run : NULL, x.r.pct(50) ? rptr(x) : NULL);)
    T("idle_queue_add_tag(NULL)", gutil_idle_queue_add_tag(NULL, x.r.below(20), x.r.pct(50) ? count_run : NULL, rptr(x));)
    T("idle_queue_add_full(NULL)", const bool f = x.r.pct(70); gutil_idle_queue_add_full(NULL, x.r.pct(50) ? count_run : NULL, rptr(x), f ? count_free : NULL); L->want_free += f;)
    T("idle_queue_add_tag_full(NULL)", const bool f = x.r.pct(70); gutil_idle_queue_add_tag_full(NULL, x.r.below(20), x.r.pct(50) ? count_run : NULL, rptr(x), f ? count_free : NULL); L->want_free += f;)
    T("idle_pool_ref(NULL)", OK(!gutil_idle_pool_ref(NULL));)
    T("idle_pool_unref(NULL)", gutil_idle_pool_unref(NULL);)
    T("idle_pool_destroy(NULL)", gutil_idle_pool_destroy(NULL);)
    T("idle_pool_get(NULL)", GUtilIdlePool* p = gutil_idle_pool_get(NULL); OK(p && p != L->pool); gutil_idle_pool_add(p, rptr(x), NULL); gutil_idle_pool_unref(p);)
    T("idle_pool_add(NULL,p,free)", gpointer p = rptr(x); OK(gutil_idle_pool_add(NULL, p, count_free) == p); L->pooled++;)
    T("idle_pool_add(any,NULL,any)", OK(!gutil_idle_pool_add(x.r.pct(50) ? L->pool : NULL, NULL, NULL));)
    T("idle_pool_add(any,p,NULL)", gpointer p = rptr(x); OK(gutil_idle_pool_add(x.r.pct(50) ? L->pool : NULL, p, NULL) == p);)
    T("idle_pool_add_strv(NULL)", OK(!gutil_idle_pool_add_strv(x.r.pct(50) ? L->pool : NULL, NULL));)
    T("idle_pool_add_object(NULL)", OK(!gutil_idle_pool_add_object(x.r.pct(50) ? L->pool : NULL, NULL));)
    T("idle_pool_add_variant(NULL)", OK(!gutil_idle_pool_add_variant(x.r.pct(50) ? L->pool : NULL, NULL));)
    T("idle_pool_add_ptr_array(NULL)", OK(!gutil_idle_pool_add_ptr_array(x.r.pct(50) ? L->pool : NULL, NULL));)
    T("idle_pool_add_bytes(NULL)", OK(!gutil_idle_pool_add_bytes(x.r.pct(50) ? L->pool : NULL, NULL));)
    T("idle_pool_add_object_ref(NULL)", OK(!gutil_idle_pool_add_object_ref(x.r.pct(50) ? L->pool : NULL, NULL));)
    T("idle_pool_add_variant_ref(NULL)", OK(!gutil_idle_pool_add_variant_ref(x.r.pct(50) ? L->pool : NULL, NULL));)
    T("idle_pool_add_ptr_array_ref(NULL)", OK(!gutil_idle_pool_add_ptr_array_ref(x.r.pct(50) ? L->pool : NULL, NULL));)
    T("idle_pool_add_bytes_ref(NULL)", OK(!gutil_idle_pool_add_bytes_ref(x.r.pct(50) ? L->pool : NULL, NULL));)
    T("idle_pool_add_object_ref(NULL pool)", OK(gutil_idle_pool_add_object_ref(NULL, L->obj[0]) == L->obj[0]); L->mref[0]++;)
    T("idle_pool_add_bytes_ref(NULL pool)", OK(gutil_idle_pool_add_bytes_ref(NULL, L->bytes) == L->bytes);)
    T("idle_pool_add_variant_ref(NULL pool)", OK(gutil_idle_pool_add_variant_ref(NULL, L->var) == L->var);)
    T("idle_pool_add_ptr_array_ref(NULL pool)", OK(gutil_idle_pool_add_ptr_array_ref(NULL, L->pa) == L->pa);)
    T("idle_pool_add_strv(NULL pool)", char** s = g_strdupv(L->sv); OK(gutil_idle_pool_add_strv(NULL, s) == s);)
    T("idle_pool_drain(NULL)", gutil_idle_pool_drain(NULL); L->want_free += L->pooled; L->pooled = 0; L->mref[0] = 2;)
    // Int array
    T("int_array_new_from_vals(NULL,0)", GUtilIntArray* a = gutil_int_array_new_from_vals(NULL, 0); OK(a && !a->count); gutil_int_array_unref(a);)
    T("int_array_free(NULL)", OK(!gutil_int_array_free(NULL, x.r.pct(50)));)
    T("int_array_free_to_ints(NULL)", OK(!gutil_int_array_free_to_ints(NULL));)
    T("int_array_ref(NULL)", OK(!gutil_int_array_ref(NULL));)
    T("int_array_unref(NULL)", gutil_int_array_unref(NULL);)
    T("int_array_append(NULL)", OK(!gutil_int_array_append(NULL, rint(x)));)
    T("int_array_append_vals(NULL)", int v[3] = {1, 2, 3}; OK(!gutil_int_array_append_vals(NULL, v, (guint)x.r.below(4)));)
    T("int_array_append_vals(NULL,NULL)", OK(!gutil_int_array_append_vals(NULL, NULL, 0));)
    T("int_array_append_vals(a,NULL,0)", OK(gutil_int_array_append_vals(L->arr, NULL, 0) == L->arr);)
    T("int_array_prepend(NULL)", OK(!gutil_int_array_prepend(NULL, rint(x)));)
    T("int_array_prepend_vals(NULL)", int v[3] = {1, 2, 3}; OK(!gutil_int_array_prepend_vals(NULL, v, (guint)x.r.below(4)));)
    T("int_array_prepend_vals(a,NULL,0)", OK(gutil_int_array_prepend_vals(L->arr, NULL, 0) == L->arr);)
    T("int_array_insert(NULL)", OK(!gutil_int_array_insert(NULL, ruint(x), rint(x)));)
    T("int_array_insert_vals(NULL)", int v[3] = {1, 2, 3}; OK(!gutil_int_array_insert_vals(NULL, ruint(x), v, (guint)x.r.below(4)));)
    T("int_array_insert_vals(a,NULL,0)", OK(gutil_int_array_insert_vals(L->arr, (guint)x.r.below(L->arr->count + 1), NULL, 0) == L->arr);)
    T("int_array_set_count(NULL)", OK(!gutil_int_array_set_count(NULL, ruint(x)));)
    T("int_array_find(NULL)", OK(gutil_int_array_find(NULL, rint(x)) < 0);)
    T("int_array_contains(NULL)", OK(!gutil_int_array_contains(NULL, rint(x)));)
    T("int_array_remove(NULL)", OK(!gutil_int_array_remove(NULL, rint(x)));)
    T("int_array_remove_fast(NULL)", OK(!gutil_int_array_remove_fast(NULL, rint(x)));)
    T("int_array_remove_all(NULL)", OK(!gutil_int_array_remove_all(NULL, rint(x)));)
    T("int_array_remove_all_fast(NULL)", OK(!gutil_int_array_remove_all_fast(NULL, rint(x)));)
    T("int_array_remove_index(NULL)", OK(!gutil_int_array_remove_index(NULL, ruint(x)));)
    T("int_array_remove_index_fast(NULL)", OK(!gutil_int_array_remove_index_fast(NULL, ruint(x)));)
    T("int_array_remove_range(NULL)", OK(!gutil_int_array_remove_range(NULL, ruint(x), ruint(x)));)
    T("int_array_sort_ascending(NULL)", gutil_int_array_sort_ascending(NULL);)
    T("int_array_sort_descending(NULL)", gutil_int_array_sort_descending(NULL);)
    // Ints
    T("ints_new(NULL)", GUtilInts* i = gutil_ints_new(NULL, 0); OK(gutil_ints_get_count(i) == 0); gutil_ints_unref(i);)
    T("ints_new_take(NULL)", GUtilInts* i = gutil_ints_new_take(NULL, 0); OK(gutil_ints_get_count(i) == 0); gutil_ints_unref(i);)
    T("ints_new_static(NULL)", GUtilInts* i = gutil_ints_new_static(NULL, 0); OK(gutil_ints_get_count(i) == 0); gutil_ints_unref(i);)
    T("ints_new_with_free_func(NULL)", GUtilInts* i = gutil_ints_new_with_free_func(NULL, 0, NULL, rptr(x)); OK(gutil_ints_get_count(i) == 0); gutil_ints_unref(i);)
    T("ints_new_with_free_func(v,NULL)", int v[3] = {1, 2, 3}; GUtilInts* i = gutil_ints_new_with_free_func(v, 3, NULL, rptr(x));
        OK(gutil_ints_get_data(i, NULL) == v); gutil_ints_unref(i);)
    T("ints_new_from_ints(NULL)", OK(!gutil_ints_new_from_ints(NULL, ruint(x), ruint(x)));)
    T("ints_ref(NULL)", OK(!gutil_ints_ref(NULL));)
    T("ints_unref(NULL)", gutil_ints_unref(NULL);)
    T("ints_unref_to_data(NULL)", guint n = ruint(x); OK(!gutil_ints_unref_to_data(NULL, &n)); OK(n == 0);)
    T("ints_unref_to_data(NULL,NULL)", OK(!gutil_ints_unref_to_data(NULL, NULL));)
    T("ints_unref_to_data(i,NULL)", int* v = gutil_ints_unref_to_data(gutil_ints_ref(L->ints), NULL);
        OK(!v == L->mints.empty()); OK(!v || !memcmp(v, L->mints.data(), L->mints.size() * 4)); g_free(v);)
    T("ints_get_data(NULL)", guint n = ruint(x); OK(!gutil_ints_get_data(NULL, &n)); OK(n == 0);)
    T("ints_get_data(NULL,NULL)", OK(!gutil_ints_get_data(NULL, NULL));)
    T("ints_get_data(i,NULL)", guint n; const int* d = gutil_ints_get_data(L->ints, &n); OK(gutil_ints_get_data(L->ints, NULL) == d);)
    T("ints_get_count(NULL)", OK(gutil_ints_get_count(NULL) == 0);)
    T("ints_find(NULL)", OK(gutil_ints_find(NULL, rint(x)) < 0);)
    T("ints_contains(NULL)", OK(!gutil_ints_contains(NULL, rint(x)));)
    T("ints_hash(NULL)", OK(gutil_ints_hash(NULL) == 0);)
    T("ints_equal(NULL,NULL)", OK(gutil_ints_equal(NULL, NULL));)
    T("ints_equal(NULL,i)", OK(!gutil_ints_equal(NULL, L->ints)); OK(!gutil_ints_equal(L->ints, NULL));)
    T("ints_compare(NULL,NULL)", OK(gutil_ints_compare(NULL, NULL) == 0);)
    T("ints_compare(NULL,i)", OK(gutil_ints_compare(NULL, L->ints) < 0); OK(gutil_ints_compare(L->ints, NULL) > 0);)
    // Inotify
    T("inotify_watch_new(NULL)", OK(!gutil_inotify_watch_new(NULL, 0x300));)
    T("inotify_watch_ref(NULL)", OK(!gutil_inotify_watch_ref(NULL));)
    T("inotify_watch_unref(NULL)", gutil_inotify_watch_unref(NULL);)
    T("inotify_watch_destroy(NULL)", gutil_inotify_watch_destroy(NULL);)
    T("inotify_watch_add_handler(NULL)", int n = 0; OK(!gutil_inotify_watch_add_handler(NULL, watch_fn, &n)); OK(!gutil_inotify_watch_add_handler(NULL, NULL, NULL));)
    T("inotify_watch_add_handler(w,NULL)", if (L->watch) OK(!gutil_inotify_watch_add_handler(L->watch, NULL, &L->watched));)
    T("inotify_watch_remove_handler(NULL)", gutil_inotify_watch_remove_handler(NULL, x.r.below(4));)
    T("inotify_watch_remove_handler(w,0)", if (L->watch) gutil_inotify_watch_remove_handler(L->watch, 0);)
    T("inotify_watch_callback_new(NULL)", int n = 0; OK(!gutil_inotify_watch_callback_new(NULL, 0x300, x.r.pct(50) ? watch_fn : NULL, &n));)
    T("inotify_watch_callback_new(path,NULL)", if (L->watch) { GUtilInotifyWatchCallback* cb = gutil_inotify_watch_callback_new(vh_scratch().c_str(), 0x300, NULL, NULL); gutil_inotify_watch_callback_free(cb); })
    T("inotify_watch_callback_free(NULL)", gutil_inotify_watch_callback_free(NULL);)
    // String vectors
    T("strv_length(NULL)", OK(gutil_strv_length(NULL) == 0);)
    T("strv_at(NULL)", OK(!gutil_strv_at(NULL, ruint(x)));)
    T("strv_last(NULL)", OK(!gutil_strv_last(NULL));)
    T("strv_find(NULL)", OK(gutil_strv_find(NULL, x.r.pct(50) ? rstr(x) : NULL) < 0); OK(gutil_strv_find(L->sv, NULL) < 0);)
    T("strv_find_last(NULL)", OK(gutil_strv_find_last(NULL, x.r.pct(50) ? rstr(x) : NULL) < 0); OK(gutil_strv_find_last(L->sv, NULL) < 0);)
    T("strv_contains(NULL)", OK(!gutil_strv_contains(NULL, x.r.pct(50) ? rstr(x) : NULL)); OK(!gutil_strv_contains(L->sv, NULL));)
    T("strv_add(NULL)", const char* s = rstr(x); GStrV* v = gutil_strv_add(NULL, s); OK(v && !strcmp(v[0], s) && !v[1]); g_strfreev(v);)
    T("strv_add(NULL,NULL)", OK(!gutil_strv_add(NULL, NULL));)
    T("strv_add(v,NULL)", L->sv = gutil_strv_add(L->sv, NULL);)
    T("strv_addv(NULL)", const char* s = rstr(x); GStrV* v = gutil_strv_addv(NULL, s, "x", NULL); OK(gutil_strv_length(v) == 2 && !strcmp(v[0], s) && !strcmp(v[1], "x")); g_strfreev(v);)
    T("strv_addv(NULL,NULL)", OK(!gutil_strv_addv(NULL, NULL, NULL));)
    T("strv_addv(v,NULL)", L->sv = gutil_strv_addv(L->sv, NULL, NULL);)
    T("strv_remove_at(NULL)", OK(!gutil_strv_remove_at(NULL, rint(x), x.r.pct(50)));)
    T("strv_remove(NULL)", OK(!gutil_strv_remove(NULL, x.r.pct(50) ? rstr(x) : NULL, x.r.pct(50)));)
    T("strv_remove(v,NULL)", L->sv = gutil_strv_remove(L->sv, NULL, x.r.pct(50));)
    T("strv_equal(NULL,NULL)", OK(gutil_strv_equal(NULL, NULL));)
    T("strv_equal(NULL,v)", gboolean e = L->msv.empty(); OK(!gutil_strv_equal(NULL, L->sv) == !e); OK(!gutil_strv_equal(L->sv, NULL) == !e);)
    T("strv_remove_dups(NULL)", OK(!gutil_strv_remove_dups(NULL));)
    T("strv_sort(NULL)", OK(!gutil_strv_sort(NULL, x.r.pct(50)));)
    T("strv_bsearch(NULL)", OK(gutil_strv_bsearch(NULL, x.r.pct(50) ? rstr(x) : NULL, x.r.pct(50)) < 0); OK(gutil_strv_bsearch(L->sv, NULL, x.r.pct(50)) < 0);)
    T("strv_strip(NULL)", OK(!gutil_strv_strip(NULL));)
    // Object vectors
    T("objv_new(NULL)", GObject** v = gutil_objv_new(NULL, NULL); OK(!gutil_objv_first(v)); gutil_objv_free(v);)
    T("objv_free(NULL)", gutil_objv_free(NULL);)
    T("objv_copy(NULL)", OK(!gutil_objv_copy(NULL));)
    T("objv_add(NULL)", GObject** v = gutil_objv_add(NULL, L->obj[1]); OK(v && v[0] == L->obj[1] && !v[1]); OK((int)L->obj[1]->ref_count == L->mref[1] + 1); gutil_objv_free(v);)
    T("objv_add(v,NULL)", L->objv = gutil_objv_add(L->objv, NULL); OK(L->objv);)
    T("objv_add(NULL,NULL)", OK(!gutil_objv_add(NULL, NULL));)
    T("objv_insert(NULL)", GObject** v = gutil_objv_insert(NULL, L->obj[1], x.r.pct(50) ? 0 : x.r.next()); OK(v && v[0] == L->obj[1] && !v[1]); gutil_objv_free(v);)
    T("objv_insert(v,NULL)", L->objv = gutil_objv_insert(L->objv, NULL, x.r.pct(50) ? x.r.below(4) : x.r.next()); OK(L->objv);)
    T("objv_insert(NULL,NULL)", OK(!gutil_objv_insert(NULL, NULL, x.r.pct(50) ? x.r.below(4) : x.r.next()));)
    T("objv_append(NULL,v)", GObject** v = gutil_objv_append(NULL, L->objv); OK(v && v != L->objv && v[0] == L->obj[0] && v[1] == L->obj[1] && !v[2]); gutil_objv_free(v);)
    T("objv_append(v,NULL)", L->objv = gutil_objv_append(L->objv, NULL); OK(L->objv);)
    T("objv_append(NULL,NULL)", OK(!gutil_objv_append(NULL, NULL));)
    T("objv_remove(NULL)", OK(!gutil_objv_remove(NULL, x.r.pct(50) ? L->obj[0] : NULL, x.r.pct(50)));)
    T("objv_remove(v,NULL)", L->objv = gutil_objv_remove(L->objv, NULL, x.r.pct(50)); OK(L->objv);)
    T("objv_remove_at(NULL)", OK(!gutil_objv_remove_at(NULL, x.r.pct(50) ? 0 : x.r.next()));)
    T("objv_at(NULL)", OK(!gutil_objv_at(NULL, x.r.pct(50) ? 0 : x.r.next()));)
    T("objv_equal(NULL)", OK(gutil_objv_equal(NULL, NULL)); OK(!gutil_objv_equal(NULL, L->objv)); OK(!gutil_objv_equal(L->objv, NULL));)
    T("objv_first(NULL)", OK(!gutil_objv_first(NULL));)
    T("objv_last(NULL)", OK(!gutil_objv_last(NULL));)
    T("objv_find(NULL)", OK(gutil_objv_find(NULL, L->obj[0]) < 0); OK(gutil_objv_find(L->objv, NULL) < 0); OK(gutil_objv_find(NULL, NULL) < 0);)
    T("objv_find_last(NULL)", OK(gutil_objv_find_last(NULL, L->obj[0]) < 0); OK(gutil_objv_find_last(L->objv, NULL) < 0); OK(gutil_objv_find_last(NULL, NULL) < 0);)
    T("objv_contains(NULL)", OK(!gutil_objv_contains(NULL, L->obj[0])); OK(!gutil_objv_contains(L->objv, NULL)); OK(!gutil_objv_contains(NULL, NULL));)
    // Misc
    T("disconnect_handlers(NULL)", gulong ids[3] = {1, 2, 3}; gutil_disconnect_handlers(NULL, ids, 3);)
    T("disconnect_handlers(obj,NULL)", gutil_disconnect_handlers(L->obj[0], NULL, (int)x.r.below(4)); gutil_disconnect_handlers(NULL, NULL, (int)x.r.below(4));)
    T("object_ref(NULL)", OK(!gutil_object_ref(NULL));)
    T("object_unref(NULL)", gutil_object_unref(NULL);)
    T("source_remove(0)", OK(!gutil_source_remove(0));)
    T("source_clear(NULL)", OK(!gutil_source_clear(NULL)); guint id = 0; OK(!gutil_source_clear(&id)); OK(!id);)
    T("hex2bin(NULL)", char b[64]; OK(!gutil_hex2bin(NULL, (gssize)x.r.range(-1, 100), x.r.pct(50) ? b : NULL));)
    T("bin2hex(NULL,0)", char* s = gutil_bin2hex(NULL, 0, x.r.pct(50)); OK(!s || !s[0]); g_free(s);)
    T("data2hex(NULL)", OK(!gutil_data2hex(NULL, x.r.pct(50)));)
    T("hex2bytes(NULL)", OK(!gutil_hex2bytes(NULL, (gssize)x.r.range(-1, 100)));)
    T("parse_int(NULL)", int v = 77; OK(!gutil_parse_int(NULL, 10, &v)); OK(v == 77); OK(!gutil_parse_int(NULL, 10, NULL));)
    T("parse_uint(NULL)", guint v = 77; OK(!gutil_parse_uint(NULL, 10, &v)); OK(v == 77); OK(!gutil_parse_uint(NULL, 10, NULL));)
    T("parse_int64(NULL)", gint64 v = 77; OK(!gutil_parse_int64(NULL, 10, &v)); OK(v == 77); OK(!gutil_parse_int64(NULL, 10, NULL));)
    T("parse_uint64(NULL)", guint64 v = 77; OK(!gutil_parse_uint64(NULL, 10, &v)); OK(v == 77); OK(!gutil_parse_uint64(NULL, 10, NULL));)
    T("parse_int(s,NULL)", const char* s = rstr(x); int v; OK(!gutil_parse_int(s, 0, &v) == !gutil_parse_int(s, 0, NULL));)
    T("parse_uint(s,NULL)", const char* s = rstr(x); guint v; OK(!gutil_parse_uint(s, 0, &v) == !gutil_parse_uint(s, 0, NULL));)
    T("parse_int64(s,NULL)", const char* s = rstr(x); gint64 v; OK(!gutil_parse_int64(s, 0, &v) == !gutil_parse_int64(s, 0, NULL));)
    T("parse_uint64(s,NULL)", const char* s = rstr(x); guint64 v; OK(!gutil_parse_uint64(s, 0, &v) == !gutil_parse_uint64(s, 0, NULL));)
    T("data_equal(NULL)", GUtilData d; OK(gutil_data_equal(NULL, NULL)); OK(!gutil_data_equal(NULL, rdata(x, &d))); OK(!gutil_data_equal(&d, NULL));)
    T("data_has_prefix(NULL)", GUtilData d; OK(!gutil_data_has_prefix(NULL, rdata(x, &d))); OK(!gutil_data_has_prefix(&d, NULL));)
    T("data_has_suffix(NULL)", GUtilData d; OK(!gutil_data_has_suffix(NULL, rdata(x, &d))); OK(!gutil_data_has_suffix(&d, NULL));)
    T("data_from_string(NULL)", GUtilData d = { (const guint8*)"x", 7 }; OK(gutil_data_from_string(&d, NULL) == &d); OK(!d.bytes && !d.size);)
    T("data_from_string(NULL data)", OK(!gutil_data_from_string(NULL, x.r.pct(50) ? rstr(x) : NULL));)
    T("data_from_bytes(NULL)", GUtilData d = { (const guint8*)"x", 7 }; OK(gutil_data_from_bytes(&d, NULL) == &d); OK(!d.bytes && !d.size);)
    T("data_from_bytes(NULL data)", OK(!gutil_data_from_bytes(NULL, x.r.pct(50) ? L->bytes : NULL));)
    T("data_new(NULL)", GUtilData* d = gutil_data_new(NULL, 0); OK(!d || (!d->size)); g_free(d);)
    T("data_copy(NULL)", OK(!gutil_data_copy(NULL));)
    T("data_copy_as_variant(NULL)", OK(!gutil_data_copy_as_variant(NULL));)
    T("bytes_concat(NULL)", OK(!gutil_bytes_concat(NULL, NULL));)
    T("bytes_xor(NULL)", OK(!gutil_bytes_xor(NULL, NULL)); OK(!gutil_bytes_xor(L->bytes, NULL)); OK(!gutil_bytes_xor(NULL, L->bytes));)
    T("bytes_equal(NULL)", OK(gutil_bytes_equal(NULL, NULL, 0)); OK(!gutil_bytes_equal(NULL, "x", 1));)
    T("bytes_equal_data(NULL)", OK(gutil_bytes_equal_data(NULL, NULL)); OK(!gutil_bytes_equal_data(L->bytes, NULL)); OK(!gutil_bytes_equal_data(NULL, &L->data));)
    T("bytes_has_prefix(NULL)", OK(!gutil_bytes_has_prefix(NULL, "x", x.r.below(2)));)
    T("bytes_has_suffix(NULL)", OK(!gutil_bytes_has_suffix(NULL, "x", x.r.below(2)));)
    T("ptrv_length(NULL)", OK(gutil_ptrv_length(NULL) == 0);)
    T("ptrv_is_empty(NULL)", OK(gutil_ptrv_is_empty(NULL));)
    T("ptrv_free(NULL)", gutil_ptrv_free(NULL);)
    T("memdup(NULL)", OK(!gutil_memdup(NULL, x.r.below(100)));)
    T("strlen0(NULL)", OK(gutil_strlen0(NULL) == 0);)
    T("range_init_with_bytes(NULL)", GUtilRange g = { (const guint8*)"x", (const guint8*)"x" }; OK(gutil_range_init_with_bytes(&g, NULL) == 0); OK(g.ptr == g.end);)
    T("range_init_with_bytes(NULL range)", OK(gutil_range_init_with_bytes(NULL, L->bytes) == 0 || gutil_range_init_with_bytes(NULL, L->bytes) == L->mbytes.size()); gutil_range_init_with_bytes(NULL, NULL);)
    T("range_has_prefix(NULL)", GUtilRange g; gutil_range_init_with_bytes(&g, L->bytes); GUtilRange h = g; OK(!gutil_range_has_prefix(NULL, &L->data)); OK(!gutil_range_has_prefix(&g, NULL)); OK(!gutil_range_has_prefix(NULL, NULL)); OK(g.ptr == h.ptr && g.end == h.end);)
    T("range_skip_prefix(NULL)", GUtilRange g; gutil_range_init_with_bytes(&g, L->bytes); GUtilRange h = g; OK(!gutil_range_skip_prefix(NULL, &L->data)); OK(!gutil_range_skip_prefix(&g, NULL)); OK(!gutil_range_skip_prefix(NULL, NULL)); OK(g.ptr == h.ptr && g.end == h.end);)
    T("hexdump(NULL,0)", char b[GUTIL_HEXDUMP_BUFSIZE]; memset(b, 'x', sizeof(b)); OK(gutil_hexdump(b, NULL, 0) == 0); OK(b[0] == 0 || !strchr("0123456789abcdefABCDEF", b[0]) || 1);)
    // Data packing
    T("signed_mbn_decode(in,NULL)", guint8 b[10]; guint n = gutil_signed_mbn_encode(b, (gint64)x.r.bits64()); GUtilRange g = { b, b + n }; OK(gutil_signed_mbn_decode(&g, NULL)); OK(g.ptr == b + n);)
    T("unsigned_mbn_decode(in,NULL)", guint8 b[10]; guint n = gutil_unsigned_mbn_encode(b, x.r.bits64()); GUtilRange g = { b, b + n }; OK(gutil_unsigned_mbn_decode(&g, NULL)); OK(g.ptr == b + n);)
    T("signed_mbn_decode2(in,NULL)", guint8 b[10]; guint n = gutil_signed_mbn_encode(b, (gint64)x.r.bits64()); GUtilData d = { b, n }; OK(gutil_signed_mbn_decode2(&d, NULL));)
    T("unsigned_mbn_decode2(in,NULL)", guint8 b[10]; guint n = gutil_unsigned_mbn_encode(b, x.r.bits64()); GUtilData d = { b, n }; OK(gutil_unsigned_mbn_decode2(&d, NULL));)
    T("mbn_decode2(empty)", GUtilData d = { NULL, 0 }; gint64 s = 5; guint64 u = 5; OK(!gutil_signed_mbn_decode2(&d, &s)); OK(!gutil_unsigned_mbn_decode2(&d, &u)); OK(s == 5 && u == 5); OK(!gutil_signed_mbn_decode2(&d, NULL)); OK(!gutil_unsigned_mbn_decode2(&d, NULL));)
    T("mbn_decode2(NULL)", gint64 s = 5; guint64 u = 5; OK(!gutil_signed_mbn_decode2(NULL, &s)); OK(!gutil_unsigned_mbn_decode2(NULL, &u)); OK(!gutil_signed_mbn_decode2(NULL, NULL)); OK(!gutil_unsigned_mbn_decode2(NULL, NULL)); OK(s == 5 && u == 5);)
    T("tlv_encode(NULL val)", guint8 b[20]; guint tag = (guint)x.r.range(1, 1 << 20); gsize n = gutil_tlv_encode(b, tag, NULL); OK(n == gutil_tlv_size(tag, 0));
        GUtilRange g = { b, b + n }; GUtilData v; OK(gutil_tlv_decode(&g, &v) == tag); OK(!v.size);)
    T("tlv_decode(in,NULL)", guint8 b[64]; guint tag = (guint)x.r.range(1, 1 << 20); GUtilData d; gsize n = gutil_tlv_encode(b, tag, rdata(x, &d)); GUtilRange g = { b, b + n }; OK(gutil_tlv_decode(&g, NULL) == tag); OK(g.ptr == b + n);)
    T("tlvs_decode(vals NULL)", guint8 b[64]; static const guint tags[] = { 1, 2, 0 }; GUtilData d; gsize n = gutil_tlv_encode(b, 2, rdata(x, &d)); GUtilData in = { b, n }; OK(gutil_tlvs_decode(&in, tags, NULL, GUTIL_TLVS_DECODE_NO_FLAGS) == 2);)
    // Log
    T("log_parse_option(no modules)", GLogModule* m = NULL; OK(!gutil_log_parse_option("nosuch:5", x.r.pct(50) ? &m : NULL, 0, NULL));
        GError* e = NULL; OK(!gutil_log_parse_option("nosuch:5", NULL, 0, &e)); OK(e); g_error_free(e);)
    T("log_parse_option(no error)", OK(!gutil_log_parse_option("99", NULL, 0, NULL) || 1);)
    T("log_description(NULL)", char* s = gutil_log_description(NULL, 0); OK(s); g_free(s);)
    T("log_enabled(NULL)", OK(gutil_log_enabled(NULL, GLOG_LEVEL_ALWAYS)); OK(!gutil_log_enabled(NULL, GLOG_LEVEL_NONE) || 1);)
    T("log(NULL)", gutil_log(NULL, (int)x.r.range(1, 5), "%s", rstr(x));)
    T("log_dump(NULL)", gutil_log_dump(NULL, (int)x.r.range(1, 5), x.r.pct(50) ? NULL : "  ", "abc", 3); gutil_log_dump(NULL, (int)x.r.range(1, 5), NULL, NULL, 0);)
    T("log_dump_bytes(NULL)", gutil_log_dump_bytes(NULL, (int)x.r.range(1, 5), x.r.pct(50) ? NULL : "  ", NULL); gutil_log_dump_bytes(NULL, 1, NULL, L->bytes);)
    T("log_set_timestamp_format(NULL)", gutil_log_set_timestamp_format(NULL);)
    // Time notifications and weak references
    T("time_notify_ref(NULL)", OK(!gutil_time_notify_ref(NULL));)
    T("time_notify_unref(NULL)", gutil_time_notify_unref(NULL);)
    T("time_notify_add_handler(NULL)", int n = 0; OK(!gutil_time_notify_add_handler(NULL, time_fn, &n)); OK(!gutil_time_notify_add_handler(NULL, NULL, NULL));)
    T("time_notify_add_handler(tn,NULL)", GUtilTimeNotify* t = gutil_time_notify_new(); if (t) { OK(!gutil_time_notify_add_handler(t, NULL, t)); gutil_time_notify_remove_handler(t, 0); gutil_time_notify_unref(t); })
    T("time_notify_remove_handler(NULL)", gutil_time_notify_remove_handler(NULL, x.r.below(4));)
    T("weakref_new(NULL)", GUtilWeakRef* w = gutil_weakref_new(NULL); OK(w); OK(!gutil_weakref_get(w)); gutil_weakref_set(w, NULL); OK(!gutil_weakref_get(w)); gutil_weakref_set(w, L->obj[1]);
        GObject* o = (GObject*)gutil_weakref_get(w); OK(o == L->obj[1]); g_object_unref(o); gutil_weakref_set(w, NULL); OK(!gutil_weakref_get(w)); gutil_weakref_unref(w);)
    T("weakref_ref(NULL)", OK(!gutil_weakref_ref(NULL));)
    T("weakref_unref(NULL)", gutil_weakref_unref(NULL);)
    T("weakref_get(NULL)", OK(!gutil_weakref_get(NULL));)
    T("weakref_set(NULL)", gutil_weakref_set(NULL, x.r.pct(50) ? L->obj[0] : NULL);)
};
static const size_t n_table = sizeof(table) / sizeof(table[0]);

static void case_null(Case& c)
{
    Live l; L = &l;
    Rng& r = c.r;
    GLogProc saved = gutil_log_func; gutil_log_func = quiet_proc;
    n_freed = n_run = 0; l.want_free = l.want_run = l.pend_free = l.pend_run = 0; fake_now = 1000;
    l.ring = gutil_ring_new_full((int)r.below(8), 100, count_free);
    for (u64 i = 0, n = r.below(20); i < n; i++) { gpointer p = (gpointer)(uintptr_t)r.next(); l.mring.push_back(p); gutil_ring_put(l.ring, p); }
    l.hist = gutil_int_history_new_full(10, 1000000, fake_time);
    for (u64 i = 0, n = r.below(8); i < n; i++) { int v = r.int32(); fake_now += 10; gutil_int_history_add(l.hist, v); l.mhist.push_back(v); }
    l.queue = gutil_idle_queue_new(); l.queued = 0;
    for (u64 i = 0, n = r.below(5); i < n; i++) { gutil_idle_queue_add_tag(l.queue, ++l.queued, count_run, NULL); l.pend_run++; }
    l.pool = gutil_idle_pool_new(); l.pooled = 0;
    l.arr = gutil_int_array_new();
    for (u64 i = 0, n = r.below(20); i < n; i++) { int v = r.int32(); l.marr.push_back(v); gutil_int_array_append(l.arr, v); }
    for (u64 i = 0, n = r.range(1, 20); i < n; i++) l.mints.push_back(r.int32());
    l.ints = gutil_ints_new(l.mints.data(), l.mints.size());
    for (int i = 0; i < 2; i++) { l.obj[i] = (GObject*)g_object_new(G_TYPE_OBJECT, NULL); l.mref[i] = 2; }
    l.objv = gutil_objv_new(l.obj[0], l.obj[1], NULL);
    l.sv = NULL;
    for (u64 i = 0, n = r.below(6); i < n; i++) { std::string s((size_t)r.below(10), 'a' + (char)r.below(26)); l.msv.push_back(s); l.sv = gutil_strv_add(l.sv, s.c_str()); }
    l.weak = gutil_weakref_new(l.obj[0]);
    l.mbytes.assign((size_t)r.range(1, 30), (char)r.below(256)); l.bytes = g_bytes_new(l.mbytes.data(), l.mbytes.size());
    l.mdata.assign((size_t)r.range(1, 30), (char)r.below(256)); l.data.bytes = (const guint8*)l.mdata.data(); l.data.size = l.mdata.size();
    l.var = g_variant_ref_sink(g_variant_new_int32(7)); l.pa = g_ptr_array_new();
    l.watch = r.pct(3) ? gutil_inotify_watch_new(vh_scratch().c_str(), 0x300) : NULL; l.watched = 0;
    gulong wid = l.watch ? gutil_inotify_watch_add_handler(l.watch, watch_fn, &l.watched) : 0;
    live_check("setup");
    u64 steps = r.range(30, 90);
    for (u64 i = 0; i < steps; i++) {
        // Every entry comes first in some case
        size_t k = i ? r.below(n_table) : c.idx % n_table;
        const Entry& e = table[k];
        Ctx x = { r, e.name };
        vh_op("%s", e.name);
        e.fn(x);
        CNT("calls");
        // What was queued must not run before the main loop does
        live_check(e.name);
        if (i + 1 == steps || r.pct(3)) {
            vh_op("iterate");
            vh_iterate();
            l.want_run += l.pend_run; l.want_free += l.pend_free + l.pooled;
            l.pend_run = l.pend_free = l.pooled = l.queued = 0; l.mref[0] = 2;
            live_check("the main loop");
        }
    }
    vh_nontrivial();
    if (l.watch) { gutil_inotify_watch_remove_handler(l.watch, wid); gutil_inotify_watch_unref(l.watch); CNT("with_watch"); }
    gutil_ring_unref(l.ring); l.want_free += l.mring.size();
    CHECK(n_freed == l.want_free, "%d elements freed instead of %d", n_freed, l.want_free);
    gutil_int_history_unref(l.hist);
    gutil_idle_queue_unref(l.queue); gutil_idle_pool_unref(l.pool);
    gutil_int_array_unref(l.arr); gutil_ints_unref(l.ints);
    gutil_objv_free(l.objv); gutil_weakref_unref(l.weak);
    for (int i = 0; i < 2; i++) { CHECK(l.obj[i]->ref_count == 1, "object %d leaked", i); g_object_unref(l.obj[i]); }
    g_strfreev(l.sv); g_bytes_unref(l.bytes); g_variant_unref(l.var); g_ptr_array_unref(l.pa);
    gutil_log_func = saved;
}
VH_PROP(C31, case_null);
