// C09, C10: idle pools against a model of pending items, with several main
// contexts, shared and per-thread pools.
#include "../harness/vh.h"
#include <atomic>
#include <unistd.h>
#include <pthread.h>
extern "C" {
#include "gutil_idlepool.h"
}

namespace {
enum Type { RAW, STRV, OBJ, OBJ_REF, VAR, VAR_REF, ARR, ARR_REF, BYT, BYT_REF, NTYPES };
const char* tname[] = { "raw", "strv", "object", "object_ref", "variant", "variant_ref", "array", "array_ref", "bytes", "bytes_ref" };
struct Model; struct Pool;
struct Item {
    Model* m; Pool* p; int id; Type type; void* ptr; int extra; bool event_seen, released; int order;
    std::vector<u64> script; bool observable; u8 buf[16];
};
struct Pool {
    Model* m; int idx; GUtilIdlePool* p; int refs; bool shared, is_default, gone; GUtilIdlePool* shared_ptr; bool self_item;
    std::deque<Item*> pending; int ctx; bool scheduled; bool lenient; int releasing;
};
const int NFOREIGN = 64;
guint foreign[NFOREIGN];
gboolean never(gpointer) { return G_SOURCE_CONTINUE; }
void setup_foreign()
{
    static bool done;
    if (done) return;
    done = true;
    for (int i = 0; i < NFOREIGN; i++) foreign[i] = g_timeout_add_seconds(100000, never, NULL);
}
void check_foreign()
{
    for (int i = 0; i < NFOREIGN; i++)
        if (!g_main_context_find_source_by_id(NULL, foreign[i])) vh_fail("oracle", "event source %u belonging to somebody else is gone", foreign[i]);
    CNT("foreign_checks");
}

struct Model {
    Case& c; Rng r;
    std::vector<Pool*> pools;
    std::vector<Item*> items;
    GMainContext* ctx[4]; guint cid[4]; int nctx; std::vector<int> pushed;
    // What is being done right now
    enum What { NOTHING, ADD, ITERATE, DRAIN, UNREF, CTXDESTROY, ENDEXTRA } what; Pool* what_pool; int what_ctx; Item* end_item;
    int depth, budget;

    Model(Case& c_) : c(c_), r(c_.r.next()), nctx(1), what(NOTHING), what_pool(NULL), what_ctx(0), end_item(NULL), depth(0), budget(150) { ctx[0] = NULL; }
    ~Model() { for (Item* i : items) delete i; for (Pool* p : pools) delete p; }
    int cur() { return pushed.empty() ? 0 : pushed.back(); }

    void on_event(Item* i) {
        vh_op("released %d", i->id); vh_mix(i->id);
        CHECK(!i->event_seen, "item %d is released again", i->id);
        i->event_seen = true;
        if (what == ENDEXTRA && end_item == i) { CHECK(i->released, "item %d", i->id); return; }
        CHECK(i->extra == 0, "item %d (%s) is gone although there are %d references to it", i->id, tname[i->type], i->extra);
        Pool* p = i->p;
        CHECK(what != NOTHING && what != ENDEXTRA, "item %d is released out of the blue", i->id);
        CHECK(what != ADD, "item %d is released synchronously", i->id);
        if (what == DRAIN) CHECK(p == what_pool, "item %d of another pool is released by drain", i->id);
        if (what == UNREF) CHECK(p == what_pool && !p->refs, "item %d is released by unref", i->id);
        if (what == CTXDESTROY) CHECK(!p->refs, "item %d is released when the context went away", i->id);
        if (what == ITERATE) CHECK(!p->scheduled || p->ctx == what_ctx || p->lenient || p->releasing, "item %d is released from a wrong context", i->id);
        if (!p->lenient) {
            while (p->pending.size() && !p->pending.front()->observable) { p->pending.front()->released = true; p->pending.pop_front(); }
            CHECK(p->pending.size() && p->pending.front() == i, "item %d is released out of order, expected %d", i->id,
                p->pending.empty() ? -1 : p->pending.front()->id);
            p->pending.pop_front();
        } else {
            for (size_t k = 0; k < p->pending.size(); k++) if (p->pending[k] == i) { p->pending.erase(p->pending.begin() + k); break; }
        }
        i->released = true;
        CNT("released");
        if (i->type == RAW && depth < 4) {
            depth++; p->releasing++;
            for (u64 code : i->script) script_op(p, code);
            p->releasing--; depth--;
        }
    }
    static void raw_cb(gpointer d) { Item* i = (Item*)d; i->m->on_event(i); }
    static void weak_cb(gpointer d, GObject*) { Item* i = (Item*)d; i->m->on_event(i); }

    // Everything which was due has to be gone, what is not observable is
    void settle(Pool* p) {
        while (p->pending.size()) {
            Item* i = p->pending.front();
            CHECK(!i->observable, "item %d (%s) was not released", i->id, tname[i->type]);
            i->released = true;
            p->pending.pop_front();
        }
        p->scheduled = false;
        p->self_item = false;
        for (Item* i : items) if (i->p == p && i->released && !i->event_seen && (i->type == OBJ || i->type == OBJ_REF))
            CHECK_EQ((int)((GObject*)i->ptr)->ref_count, i->extra, "object references after release");
        check_shared(p);
    }
    void check_shared(Pool* p) {
        if (!p->shared) return;
        const bool alive = p->refs > 0 || p->self_item || !p->pending.empty();
        if (alive) { if (!p->pending.empty() && !p->refs && !p->self_item && !p->shared_ptr) {} else CHECK(p->shared_ptr == p->p, "shared pointer is %p while the pool is alive", p->shared_ptr); }
        else { CHECK(!p->shared_ptr, "shared pointer is not cleared"); p->gone = true; CNT("shared_gone"); }
    }
    void add(Pool* p, GUtilIdlePool* h) {
        if (--budget < 0) return;
        Item* i = new Item();
        i->m = this; i->p = p; i->id = (int)items.size(); i->type = (Type)(r.pct(40) ? RAW : r.below(NTYPES));
        i->extra = 0; i->event_seen = i->released = false;
        memset(i->buf, (u8)i->id, sizeof(i->buf));
        if (i->type != RAW && i->type != STRV) i->extra = r.pct(70) ? 0 : 1 + (int)r.below(2);
        i->observable = i->type != STRV && !i->extra;
        if (i->type == RAW && depth < 3 && r.pct(35)) for (int n = 1 + (int)r.below(3); n; n--) i->script.push_back(r.next());
        items.push_back(i);
        vh_op("add %d to pool %d: %s extra=%d ctx=%d%s", i->id, p->idx, tname[i->type], i->extra, cur(), h ? "" : " (NULL)");
        const What sw = what; Pool* sp = what_pool;
        what = ADD; what_pool = p;
        gpointer ret = NULL;
        switch (i->type) {
        case RAW: i->ptr = i; ret = gutil_idle_pool_add(h, i, raw_cb); break;
        case STRV: { char** v = g_new0(char*, 3); v[0] = g_strdup("one"); v[1] = g_strdup("two"); i->ptr = v; ret = gutil_idle_pool_add_strv(h, v); break; }
        case OBJ: case OBJ_REF: {
            GObject* o = (GObject*)g_object_new(G_TYPE_OBJECT, NULL);
            g_object_weak_ref(o, weak_cb, i);
            i->ptr = o;
            for (int k = 0; k < i->extra; k++) g_object_ref(o);
            if (i->type == OBJ) { ret = gutil_idle_pool_add_object(h, o); CHECK_EQ((int)o->ref_count, i->extra + 1, "object references after add"); }
            else { ret = gutil_idle_pool_add_object_ref(h, o); CHECK_EQ((int)o->ref_count, i->extra + 2, "object references after add_ref"); g_object_unref(o); }
            break; }
        case VAR: case VAR_REF: {
            GVariant* v = g_variant_new_from_data(G_VARIANT_TYPE("ay"), i->buf, sizeof(i->buf), TRUE, raw_cb, i);
            const bool floating = r.pct(50);    // The reference it's born with counts the same way
            if (!floating) g_variant_ref_sink(v);
            i->ptr = v;
            for (int k = 0; k < i->extra; k++) g_variant_ref(v);
            if (i->type == VAR) ret = gutil_idle_pool_add_variant(h, v);
            else ret = gutil_idle_pool_add_variant_ref(h, v);
            if (i->type == VAR_REF) g_variant_unref(v);
            if (floating) CNT("floating_variant");
            break; }
        case ARR: case ARR_REF: {
            GPtrArray* a = g_ptr_array_new_with_free_func(raw_cb);
            g_ptr_array_add(a, i);
            i->ptr = a;
            for (int k = 0; k < i->extra; k++) g_ptr_array_ref(a);
            if (i->type == ARR) ret = gutil_idle_pool_add_ptr_array(h, a);
            else { ret = gutil_idle_pool_add_ptr_array_ref(h, a); g_ptr_array_unref(a); }
            break; }
        default: {
            GBytes* b = g_bytes_new_with_free_func(i->buf, sizeof(i->buf), raw_cb, i);
            i->ptr = b;
            for (int k = 0; k < i->extra; k++) g_bytes_ref(b);
            if (i->type == BYT) ret = gutil_idle_pool_add_bytes(h, b);
            else { ret = gutil_idle_pool_add_bytes_ref(h, b); g_bytes_unref(b); }
            break; }
        }
        what = sw; what_pool = sp;
        CHECK(ret == i->ptr, "add returned %p instead of %p", ret, i->ptr);
        CHECK(!i->event_seen, "item %d was released by add", i->id);
        p->pending.push_back(i);
        if (!p->scheduled) { p->scheduled = true; p->ctx = cur(); }
        CNT("add"); if (depth) CNT("add_from_release"); if (i->extra) CNT("add_shared_item"); if (p->ctx) CNT("add_own_context");
    }
    void script_op(Pool* p, u64 code) {
        if (p->gone) return;
        Rng save = r;
        r = Rng(code);
        switch (r.below(10)) {
        case 0: case 1: case 2: case 3: case 4: if (usable(p)) add(p, handle(p)); break;
        case 5: if (usable(p)) { vh_op("(ref, unref)"); gutil_idle_pool_ref(p->p); gutil_idle_pool_unref(p->p); CNT("ref_unref_from_release"); } break;
        case 6: if (usable(p) && r.pct(25)) {
            vh_op("(drain)");
            p->lenient = true;
            const What sw = what; Pool* sp = what_pool;
            if (what == ITERATE || what == CTXDESTROY) {} else { what = DRAIN; what_pool = p; }
            gutil_idle_pool_drain(p->p);
            what = sw; what_pool = sp;
            CNT("nested_drain");
            } break;
        case 7: { // Another pool. Whatever is added there waits for its own turn.
            Pool* o = r.pick(pools);
            if (o != p && usable(o) && !o->releasing && !o->gone && what == DRAIN) add(o, handle(o));
            break; }
        case 8: if (p->refs > 1) { vh_op("(unref)"); p->refs--; gutil_idle_pool_unref(p->p); }
            break;
        case 9: if (p->refs == 1 && r.pct(30) && !p->is_default) { vh_op("(last unref)"); p->refs = 0; gutil_idle_pool_unref(p->p); CNT("last_unref_from_release"); }
            break;
        }
        r = save;
    }
    // While it is being destroyed the pool is still there for the release functions
    bool usable(Pool* p) { return !p->gone && (p->refs > 0 || p->releasing || p->is_default || (p->shared && p->shared_ptr)); }
    GUtilIdlePool* handle(Pool* p) { return p->is_default && r.pct(60) ? NULL : p->p; }

    static gboolean busy_cb(gpointer) { return G_SOURCE_CONTINUE; }
    void iterate(int k) {
        vh_op("iterate ctx %d", k);
        std::vector<Pool*> due;
        for (Pool* p : pools) if (!p->gone && p->scheduled && p->ctx == k) due.push_back(p);
        // A busy application has something to do in every idle iteration
        GSource* busy = r.pct(15) ? g_idle_source_new() : NULL;
        if (busy) {
            g_source_set_callback(busy, busy_cb, NULL, NULL);
            g_source_attach(busy, ctx[k]);
            CNT("busy_context");
        }
        what = ITERATE; what_ctx = k;
        g_main_context_iteration(ctx[k], FALSE);
        what = NOTHING;
        if (busy) { g_source_destroy(busy); g_source_unref(busy); }
        // Nested adds after a nested drain are in the same go, too
        for (Pool* p : due) { settle(p); if (!p->refs && !p->is_default) p->gone = true; p->lenient = false; }
        check_foreign();
        CNT("iterations"); if (k) CNT("iterations_own_context");
    }
    void drain(Pool* p) {
        vh_op("drain pool %d", p->idx);
        what = DRAIN; what_pool = p;
        gutil_idle_pool_drain(p->is_default && r.pct(50) ? NULL : p->p);
        what = NOTHING;
        settle(p);
        p->lenient = false;
        if (!p->refs && !p->is_default) p->gone = true;
        check_foreign();
        CNT("drain");
        if (cur() || p->ctx) CNT("drain_own_context");
    }
    void unref(Pool* p, bool destroy) {
        p->refs--;
        vh_op("%s pool %d, refs left %d, pending %d", destroy ? "destroy" : "unref", p->idx, p->refs, (int)p->pending.size());
        what = destroy ? DRAIN : UNREF; what_pool = p;
        if (destroy) gutil_idle_pool_destroy(p->p); else gutil_idle_pool_unref(p->p);
        what = NOTHING;
        if (destroy) { settle(p); p->lenient = false; CNT("destroy"); if (!p->refs && !p->is_default) p->gone = true; }
        else if (!p->refs) {
            CNT("last_unref");
            // With something pending the pool may live until the next iteration
            bool obs = false;
            for (Item* i : p->pending) obs |= i->observable;
            if (p->pending.empty() && !p->self_item) { p->gone = true; }
            (void)obs;
        }
        check_shared(p);
        check_foreign();
    }
    Pool* new_pool(int kind) {
        Pool* p = new Pool();
        p->m = this; p->idx = (int)pools.size(); p->refs = 1; p->shared = p->is_default = p->gone = false; p->shared_ptr = NULL;
        p->self_item = p->scheduled = p->lenient = false; p->ctx = 0; p->releasing = 0;
        if (kind == 0) { p->p = r.pct(50) ? gutil_idle_pool_new() : gutil_idle_pool_get(NULL); }
        else if (kind == 1) { p->is_default = true; p->refs = 0; p->p = gutil_idle_pool_get_default(); }
        else {
            p->shared = true; p->refs = 0;
            p->p = gutil_idle_pool_get(&p->shared_ptr);
            p->self_item = true; p->scheduled = true; p->ctx = cur();
            CHECK(p->p && p->shared_ptr == p->p, "shared pointer is not set");
            CNT("shared_new");
        }
        CHECK(p->p != NULL, "no pool");
        vh_op("pool %d kind %d ctx=%d", p->idx, kind, cur());
        pools.push_back(p);
        return p;
    }
    void step(bool contexts) {
        Pool* p = r.pick(pools);
        switch (r.below(contexts ? 26 : 20)) {
        case 0: case 1: case 2: case 3: case 4: case 5: case 6: if (usable(p)) add(p, handle(p)); break;
        case 7: case 8: case 9: iterate(0); break;
        case 10: if (usable(p)) drain(p); break;
        case 11: if (usable(p) && !p->is_default) { vh_op("ref pool %d", p->idx); CHECK(gutil_idle_pool_ref(p->p) == p->p, "ref"); p->refs++; } break;
        case 12: if (p->refs > 1 || (p->refs == 1 && r.pct(40))) unref(p, false); break;
        case 13: if (p->refs > 0 && r.pct(50)) unref(p, true); break;
        case 14:
            if (p->shared && p->shared_ptr) {
                CHECK(gutil_idle_pool_get(&p->shared_ptr) == p->p, "shared pool is not the same");
                CNT("shared_get");
            }
            break;
        case 15: if (pools.size() < 6 && r.pct(50)) new_pool(r.pct(50) ? 0 : 2); break;
        case 16: // Nothing to release
            if (usable(p)) {
                CHECK(gutil_idle_pool_add(p->p, this, NULL) == (gpointer)this, "add without release function");
                switch (r.below(9)) {
                case 0: CHECK(!gutil_idle_pool_add_strv(p->p, NULL), "NULL"); break;
                case 1: CHECK(!gutil_idle_pool_add_object(p->p, NULL), "NULL"); break;
                case 2: CHECK(!gutil_idle_pool_add_object_ref(p->p, NULL), "NULL"); break;
                case 3: CHECK(!gutil_idle_pool_add_variant(p->p, NULL), "NULL"); break;
                case 4: CHECK(!gutil_idle_pool_add_variant_ref(p->p, NULL), "NULL"); break;
                case 5: CHECK(!gutil_idle_pool_add_ptr_array(p->p, NULL), "NULL"); break;
                case 6: CHECK(!gutil_idle_pool_add_ptr_array_ref(p->p, NULL), "NULL"); break;
                case 7: CHECK(!gutil_idle_pool_add_bytes(p->p, NULL), "NULL"); break;
                case 8: CHECK(!gutil_idle_pool_add_bytes_ref(p->p, NULL), "NULL"); break;
                }
                CNT("add_nothing");
            }
            break;
        case 17: { // Contents are intact while they wait
            for (Item* i : p->pending) if (i->type == STRV) {
                char** v = (char**)i->ptr;
                CHECK(!strcmp(v[0], "one") && !strcmp(v[1], "two") && !v[2], "string vector was changed");
                CNT("contents_checked");
            }
            break; }
        case 18: case 19: {
            if (r.pct(30)) { for (Pool* d : pools) if (d->is_default) CHECK(gutil_idle_pool_get_default() == d->p, "default pool changed"); }
            if (usable(p)) add(p, handle(p));
            break; }
        case 20: case 21:
            if (nctx < 4 && r.pct(40)) {
                ctx[nctx] = g_main_context_new();
                // Source ids of this context start from one as well
                GSource* s = g_timeout_source_new_seconds(100000);
                g_source_set_callback(s, never, NULL, NULL);
                cid[nctx] = g_source_attach(s, ctx[nctx]);
                g_source_unref(s);
                vh_op("new ctx %d", nctx);
                nctx++;
            }
            break;
        case 22: case 23:
            if (nctx > 1 && pushed.size() < 3) {
                const int k = 1 + (int)r.below(nctx - 1);
                if (ctx[k]) { vh_op("push ctx %d", k); g_main_context_push_thread_default(ctx[k]); pushed.push_back(k); }
            }
            break;
        case 24:
            if (pushed.size()) { vh_op("pop ctx %d", pushed.back()); g_main_context_pop_thread_default(ctx[pushed.back()]); pushed.pop_back(); }
            break;
        case 25: {
            if (nctx < 2) break;
            const int k = 1 + (int)r.below(nctx - 1);
            if (!ctx[k]) break;
            if (r.pct(70)) { iterate(k); check_own(k); }
            else destroy_ctx(k);
            break; }
        }
    }
    void check_own(int k) { CHECK(g_main_context_find_source_by_id(ctx[k], cid[k]), "foreign source of context %d is gone", k); }
    void destroy_ctx(int k) {
        if (std::find(pushed.begin(), pushed.end(), k) != pushed.end()) return;
        // A shared pool nobody else refers to would be stuck
        for (Pool* p : pools) if (!p->gone && p->scheduled && p->ctx == k && (!p->refs || p->shared)) return;
        check_own(k);
        vh_op("destroy ctx %d", k);
        what = CTXDESTROY; what_ctx = k;
        g_main_context_unref(ctx[k]);
        what = NOTHING;
        ctx[k] = NULL;
        for (Pool* p : pools) if (!p->gone && p->scheduled && p->ctx == k) { p->scheduled = false; CNT("context_died_with_items"); }
    }
    void finish() {
        // Everything is released in the end
        while (pushed.size()) { g_main_context_pop_thread_default(ctx[pushed.back()]); pushed.pop_back(); }
        for (int round = 0; round < 4; round++) for (int k = 0; k < nctx; k++) if (!k || ctx[k]) iterate(k);
        for (Pool* p : pools) {
            if (p->is_default) { if (!p->pending.empty()) drain(p); }
            else { while (p->refs > 0 && !p->gone) unref(p, false); }
        }
        for (int round = 0; round < 4; round++) for (int k = 0; k < nctx; k++) if (!k || ctx[k]) iterate(k);
        for (Pool* p : pools) { CHECK(p->pending.empty() || !p->pending.front()->observable, "item %d is never released", p->pending.front()->id); if (p->shared) CHECK(!p->shared_ptr, "shared pointer of a dead pool is not cleared"); }
        for (int k = 1; k < nctx; k++) if (ctx[k]) { check_own(k); g_main_context_unref(ctx[k]); ctx[k] = NULL; }
        for (Item* i : items) {
            if (i->extra) {
                CHECK(!i->event_seen, "item %d", i->id);
                i->released = true;
                what = ENDEXTRA; end_item = i;
                for (int k = 0; k < i->extra; k++) {
                    CHECK(!i->event_seen, "item %d had too few references", i->id);
                    switch (i->type) {
                    case OBJ: case OBJ_REF: g_object_unref(i->ptr); break;
                    case VAR: case VAR_REF: g_variant_unref((GVariant*)i->ptr); break;
                    case ARR: case ARR_REF: g_ptr_array_unref((GPtrArray*)i->ptr); break;
                    case BYT: case BYT_REF: g_bytes_unref((GBytes*)i->ptr); break;
                    default: break;
                    }
                }
                what = NOTHING;
                CHECK(i->event_seen, "item %d (%s) was not released by the pool", i->id, tname[i->type]);
            } else if (i->type != STRV) {
                CHECK(i->event_seen, "item %d (%s) was not released", i->id, tname[i->type]);
            }
        }
        if (items.size() > 1) vh_nontrivial();
    }
};

void history(Case& c, bool contexts)
{
    setup_foreign();
    Model m(c);
    m.new_pool(contexts ? (int)m.r.below(3) : m.r.pct(70) ? 0 : 1);
    if (m.r.pct(50)) m.new_pool(m.pools[0]->is_default ? 2 : (int)m.r.below(2) * (m.r.pct(50) ? 2 : 1));
    const int steps = 10 + (int)m.r.below(60);
    for (int i = 0; i < steps; i++) m.step(contexts);
    m.finish();
}

//------------------------------------------------------------ threads (C10)
struct Thr;
struct TItem { Thr* t; int id; };
struct Thr {
    int idx; bool own_ctx; u64 seed; pthread_t tid; std::atomic<int> phase; std::atomic<int> done_phase; std::atomic<bool> exiting;
    std::vector<TItem> items; std::vector<int> released; pthread_mutex_t mx; std::vector<pthread_t> by; std::vector<bool> while_exiting; GUtilIdlePool* pool;
    std::atomic<int> errors; char err[128]; int iterations; bool iterate_all; int pushed_mid;
    bool finished; GMainContext* ctx;
};
pthread_t main_tid;
void t_release(gpointer d)
{
    TItem* i = (TItem*)d;
    Thr* t = i->t;
    pthread_mutex_lock(&t->mx);
    t->released.push_back(i->id);
    t->by.push_back(pthread_self());
    pthread_mutex_unlock(&t->mx);
}
void t_err(Thr* t, const char* e) { if (!t->errors++) g_strlcpy(t->err, e, sizeof(t->err)); }
void t_body(Thr* t)
{
    Rng r(t->seed);
    GMainContext* ctx = NULL;
    if (t->own_ctx) { ctx = g_main_context_new(); g_main_context_push_thread_default(ctx); }
    GUtilIdlePool* pool = gutil_idle_pool_get_default();
    t->pool = pool;
    if (!pool) t_err(t, "no default pool");
    size_t next = 0;
    while (next < t->items.size()) {
        size_t n = 1 + r.below(4);
        while (n-- && next < t->items.size()) {
            if (gutil_idle_pool_add(r.pct(50) ? NULL : pool, &t->items[next], t_release) != &t->items[next]) t_err(t, "add returned something else");
            next++;
        }
        if (gutil_idle_pool_get_default() != pool) t_err(t, "default pool is not the same");
        if (r.pct(20)) usleep(r.below(200));
        if (t->own_ctx && r.pct(60)) {
            while (g_main_context_iteration(ctx, FALSE));
            pthread_mutex_lock(&t->mx);
            if (t->released.size() != next) t_err(t, "not everything is released by an iteration of own context");
            pthread_mutex_unlock(&t->mx);
        } else if (r.pct(15)) {
            gutil_idle_pool_drain(r.pct(50) ? NULL : pool);
            pthread_mutex_lock(&t->mx);
            if (t->released.size() != next) t_err(t, "not everything is released by drain");
            pthread_mutex_unlock(&t->mx);
        } else if (!t->own_ctx) {
            // Give the main loop a chance to run
            usleep(r.below(300));
            pthread_mutex_lock(&t->mx);
            for (pthread_t x : t->by) if (!pthread_equal(x, pthread_self())) t_err(t, "released by another thread while its own thread is running");
            pthread_mutex_unlock(&t->mx);
        }
    }
    pthread_mutex_lock(&t->mx);
    for (pthread_t x : t->by) if (!pthread_equal(x, pthread_self())) t_err(t, "released by another thread while its own thread is running");
    pthread_mutex_unlock(&t->mx);
    if (t->own_ctx) { g_main_context_pop_thread_default(ctx); g_main_context_unref(ctx); }
}
gpointer t_func(gpointer d) { Thr* t = (Thr*)d; t->tid = pthread_self(); t_body(t); return NULL; }

void threads(Case& c)
{
    setup_foreign();
    Rng& r = c.r;
    vh_watch_memory(false);
    const int n = 1 + (int)r.below(3);
    std::vector<Thr*> ts;
    main_tid = pthread_self();
    for (int k = 0; k < n; k++) {
        Thr* t = new Thr();
        t->idx = k; t->own_ctx = r.pct(55); t->seed = r.next(); t->errors = 0; t->pool = NULL;
        pthread_mutex_init(&t->mx, NULL);
        const int ni = 1 + (int)r.below(14);
        for (int i = 0; i < ni; i++) t->items.push_back({ t, i });
        vh_op("thread %d own_ctx=%d items=%d seed=%llx", k, t->own_ctx, ni, (unsigned long long)t->seed);
        ts.push_back(t);
    }
    std::vector<GThread*> gt;
    for (Thr* t : ts) gt.push_back(g_thread_new("t", t_func, t));
    // The main thread runs its own loop and uses its own pool meanwhile
    GUtilIdlePool* mine = gutil_idle_pool_get_default();
    Thr own; own.idx = -1; own.errors = 0; pthread_mutex_init(&own.mx, NULL);
    const int nm = 5 + (int)r.below(10);
    for (int i = 0; i < nm; i++) own.items.push_back({ &own, i });
    for (int i = 0; i < nm; i++) {
        gutil_idle_pool_add(r.pct(50) ? mine : NULL, &own.items[i], t_release);
        if (r.pct(60)) while (g_main_context_iteration(NULL, FALSE));
        if (r.pct(50)) usleep(r.below(100));
    }
    while (g_main_context_iteration(NULL, FALSE));
    for (GThread* g : gt) {
        if (r.pct(40)) while (g_main_context_iteration(NULL, FALSE));
        g_thread_join(g);
    }
    for (int k = 0; k < 3; k++) while (g_main_context_iteration(NULL, FALSE));
    CHECK((int)own.released.size() == nm, "main thread: %d items of %d released", (int)own.released.size(), nm);
    for (int i = 0; i < nm; i++) CHECK(own.released[i] == i && pthread_equal(own.by[i], main_tid), "main thread: item %d", i);
    for (Thr* t : ts) {
        CHECK(!t->errors, "thread %d: %s", t->idx, t->err);
        CHECK(t->pool != mine, "default pool is shared by different threads");
        CHECK(t->released.size() == t->items.size(), "thread %d: %d items of %d are released", t->idx, (int)t->released.size(), (int)t->items.size());
        for (size_t i = 0; i < t->released.size(); i++) {
            CHECK(t->released[i] == (int)i, "thread %d: wrong order, %d instead of %d", t->idx, t->released[i], (int)i);
            if (t->own_ctx) { CHECK(pthread_equal(t->by[i], t->tid), "thread %d: item %d is released by another thread", t->idx, (int)i); CNT("thread_released_own_ctx"); }
            else if (pthread_equal(t->by[i], t->tid)) CNT("thread_released_at_exit"); else CNT("thread_released_later_by_main");
        }
        pthread_mutex_destroy(&t->mx);
        delete t;
    }
    pthread_mutex_destroy(&own.mx);
    check_foreign();
    CNT("thread_cases");
    vh_nontrivial();
}

//---------------------------- shared pool which dies with things still in it
struct Dying {
    Rng& r; GUtilIdlePool* shared = NULL; GUtilIdlePool* dying = NULL; std::vector<GUtilIdlePool*> kept; int added = 0, released = 0, depth = 0; bool over = false;
    Dying(Rng& r_) : r(r_) {}
};
void d_release(gpointer data);
void d_add(Dying* d, GUtilIdlePool* p) { d->added++; CHECK(gutil_idle_pool_add(p, d, d_release) == (gpointer)d, "add"); }
void d_release(gpointer data)
{
    Dying* d = (Dying*)data;
    d->released++;
    CHECK(d->released <= d->added, "released too many times");
    vh_op("release %d of %d", d->released, d->added);
    if (d->over || d->added > 60) return;
    Rng save = d->r;
    if (d->r.pct(60)) {
        GUtilIdlePool* p = gutil_idle_pool_get(&d->shared);
        vh_op("get %s", p == d->dying ? "same" : "another");
        CHECK(p && d->shared == p, "shared pointer isn't set");
        for (GUtilIdlePool* k : d->kept) CHECK(k == p, "different shared pools at the same time");
        if (d->r.pct(50)) { vh_op("ref"); d->kept.push_back(gutil_idle_pool_ref(p)); }
        if (d->r.pct(40)) d_add(d, p);
        CNT("get_while_dying");
    }
    if (d->r.pct(30)) d_add(d, d->dying);
}
void dying(Case& c)
{
    setup_foreign();
    Rng& r = c.r;
    Dying d(r);
    // With its own context the pool can lose its source without being drained
    GMainContext* ctx = g_main_context_new();
    g_main_context_push_thread_default(ctx);
    d.dying = gutil_idle_pool_ref(gutil_idle_pool_get(&d.shared));
    const bool run = r.pct(80);
    if (run) while (g_main_context_iteration(ctx, FALSE));
    CHECK(d.shared == d.dying, "shared pointer isn't there");
    const int n = 1 + (int)r.below(5);
    for (int i = 0; i < n; i++) d_add(&d, d.dying);
    g_main_context_pop_thread_default(ctx);
    g_main_context_unref(ctx);
    CHECK_EQ(d.released, 0, "released when the context died");
    // Otherwise there's one more reference which belongs to the pool itself
    if (!run) { d.over = true; gutil_idle_pool_drain(d.dying); CHECK_EQ(d.released, d.added, "released by drain"); d.over = false; d_add(&d, d.dying); }
    const int before = d.released;
    vh_op("last unref, %d items", d.added - before);
    if (run) {
        gutil_idle_pool_unref(d.dying);
        CHECK(d.released > before, "nothing is released by the last unref");
    } else {
        gutil_idle_pool_destroy(d.dying);
    }
    if (d.kept.size()) {
        CHECK(d.shared == d.kept[0], "shared pointer is %s while the pool is alive", d.shared ? "wrong" : "NULL");
        CHECK(gutil_idle_pool_get(&d.shared) == d.kept[0], "shared pool is not the same");
        CNT("kept");
    }
    d.over = true;
    while (vh_iterate()) ;
    if (d.kept.size()) CHECK(d.shared == d.kept[0], "shared pointer is %s while the pool is alive", d.shared ? "wrong" : "NULL");
    for (GUtilIdlePool* p : d.kept) gutil_idle_pool_unref(p);
    while (vh_iterate()) ;
    CHECK_EQ(d.released, d.added, "number of released items");
    CHECK(!d.shared, "shared pointer of a dead pool is not cleared");
    check_foreign();
    CNT("dying");
    vh_nontrivial();
}

//------------ the same things added many times, long lists, nested main loops
struct Repeat;
struct Token { Repeat* rp; int pool; };
struct Repeat {
    Rng r; Token tok[3][4]; std::vector<std::pair<int, void*>> expect[3]; size_t got[3]; bool nesting, over; int depth, from[3];
    Repeat(u64 seed) : r(seed), nesting(false), over(false), depth(0) { for (int k = 0; k < 3; k++) { got[k] = 0; from[k] = 0; for (Token& t : tok[k]) { t.rp = this; t.pool = k; } } }
};
Repeat* current_repeat;
void rp_event(Repeat* x, int pool, int fn, void* ptr)
{
    CHECK(!x->over, "released out of the blue");
    CHECK(x->from[pool], "something in pool %d is released too early", pool);
    CHECK(x->got[pool] < x->expect[pool].size(), "released too many times");
    const auto& e = x->expect[pool][x->got[pool]++];
    CHECK(e.first == fn && e.second == ptr, "pool %d: release %d: function %d(%p) is called, expected %d(%p)", pool, (int)x->got[pool] - 1, fn, ptr, e.first, e.second);
    if (x->nesting && x->depth < 2 && x->r.pct(5)) {
        x->depth++;
        g_main_context_iteration(NULL, FALSE);
        x->depth--;
        CNT("nested_loop");
    }
}
void rp_free1(gpointer p) { Token* t = (Token*)p; rp_event(t->rp, t->pool, 1, p); }
void rp_free2(gpointer p) { Token* t = (Token*)p; rp_event(t->rp, t->pool, 2, p); }
void rp_free_null(gpointer p) { CHECK(!p, "%p instead of NULL", p); rp_event(current_repeat, 0, 3, p); }
void repeat(Case& c)
{
    setup_foreign();
    Repeat x(c.r.next());
    Rng& r = x.r;
    current_repeat = &x;
    const int n = 1 + (int)r.below(3);
    const bool big = vh_big(c, 1009);
    GUtilIdlePool* p[3];
    GObject* obj = (GObject*)g_object_new(G_TYPE_OBJECT, NULL);
    GBytes* bytes = g_bytes_new_static("x", 1);
    GPtrArray* arr = g_ptr_array_new();
    GVariant* var = g_variant_ref_sink(g_variant_new_boolean(TRUE));
    int objrefs = 1, holders = 0;
    x.nesting = r.pct(40);
    for (int k = 0; k < n; k++) p[k] = gutil_idle_pool_new();
    for (int round = 1 + (int)r.below(3); round; round--) {
        int m = big ? (int)vh_big_size(r) : r.pct(10) ? 3000 : r.pct(30) ? 200 : 20;
        m = 1 + (big ? m : (int)r.below(m));
        if (big) CNT("long_list");
        for (int i = 0; i < m; i++) {
            const int k = (int)r.below(n);
            Token* t = &x.tok[k][r.below(r.pct(50) ? 1 : 4)];
            switch (r.below(big ? 60 : 12)) {
            case 0: CHECK(gutil_idle_pool_add_object(p[k], g_object_ref(obj)) == obj, "object"); objrefs++; break;
            case 1: CHECK(gutil_idle_pool_add_object_ref(p[k], obj) == obj, "object ref"); objrefs++; break;
            case 2: CHECK(gutil_idle_pool_add_bytes_ref(p[k], bytes) == bytes, "bytes"); holders++; break;
            case 3: CHECK(gutil_idle_pool_add_ptr_array_ref(p[k], arr) == arr, "array"); holders++; break;
            case 4: CHECK(gutil_idle_pool_add_variant_ref(p[k], var) == var, "variant"); holders++; break;
            case 5: if (!k) { CHECK(!gutil_idle_pool_add(p[k], NULL, rp_free_null), "NULL"); x.expect[k].push_back({ 3, NULL }); CNT("null_pointer"); break; }
            // fallthrough
            case 6: case 7: CHECK(gutil_idle_pool_add(p[k], t, rp_free2) == t, "add"); x.expect[k].push_back({ 2, t }); break;
            default: CHECK(gutil_idle_pool_add(p[k], t, rp_free1) == t, "add"); x.expect[k].push_back({ 1, t }); break;
            }
        }
        CHECK_EQ((int)obj->ref_count, objrefs, "object references");
        vh_op("%d items in %d pools, %d object references", m, n, objrefs);
        if (r.pct(50)) {
            for (int k = 0; k < n; k++) x.from[k] = 1;
            while (vh_iterate()) ;
        } else {
            for (int k = 0; k < n; k++) {
                x.from[k] = 1;
                // Idle sources of the others are only seen by nested loops
                if (x.nesting) for (int j = 0; j < n; j++) x.from[j] = 1;
                if (round == 1 && r.pct(50)) gutil_idle_pool_destroy(gutil_idle_pool_ref(p[k])); else gutil_idle_pool_drain(p[k]);
                CHECK_EQ(x.got[k], x.expect[k].size(), "released by drain");
            }
        }
        for (int k = 0; k < n; k++) { CHECK_EQ(x.got[k], x.expect[k].size(), "released by pool"); x.from[k] = 0; x.got[k] = 0; x.expect[k].clear(); }
        CHECK_EQ((int)obj->ref_count, 1, "object references afterwards");
        objrefs = 1;
    }
    x.over = true;
    for (int k = 0; k < n; k++) gutil_idle_pool_unref(p[k]);
    while (vh_iterate()) ;
    CHECK_EQ((int)obj->ref_count, 1, "object references in the end");
    // The leak monitor notices if any references to these are left
    g_object_unref(obj);
    g_bytes_unref(bytes);
    g_ptr_array_unref(arr);
    g_variant_unref(var);
    check_foreign();
    if (holders) CNT("repeated");
    vh_nontrivial();
}
}
static void c09(Case& c) { vh_watch_memory(true); if (c.idx % 16 == 9) repeat(c); else history(c, c.idx % 4 == 3); }
static void c10(Case& c) { vh_watch_memory(true); if (c.idx % 8 == 7) threads(c); else if (c.idx % 16 == 6) dying(c); else history(c, true); }
VH_PROP(C09, c09);
VH_PROP(C10, c10);
