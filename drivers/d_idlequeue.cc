// C11, C12: idle queue against an online checker. Items carry scripts which
// operate on the same queue from inside of the run and free callbacks.
#include "../harness/vh.h"
extern "C" {
#include "gutil_idlequeue.h"
}

namespace {
enum State { PENDING, LIMBO, RAN, DONE };
struct Model;
struct Item {
    Model* m; int id; GUtilIdleQueueTag tag; State st; bool has_run, has_free;
    bool batch, must; int runs, frees;     // batch: may run in this iteration, must: has to
    std::vector<u64> run_script, free_script;
};
enum CtxType { DISPATCH, CANCEL_TAG, CANCEL_ALL, FINAL };
struct Ctx { CtxType type; int expect; int seen; size_t first_new; };

struct Model {
    Case& c; Rng r;
    GUtilIdleQueue* q;
    std::vector<Item*> items;
    std::deque<int> pending;        // not cancelled, not run, in the order of adding
    std::vector<Ctx> stack;
    int refs; bool dead; int depth; int cancel_bias; int awaiting; int tags; int budget; int added_in_cb; GUtilIdleQueueTag wide; std::vector<GUtilIdleQueueTag> tagset; bool own_context, big; Model* other; bool running;

    Model(Case& c_, int cb) : c(c_), r(c_.r.next()), q(NULL), refs(1), dead(false), depth(0), cancel_bias(cb), awaiting(-1), budget(400), added_in_cb(0), wide(0), own_context(false), big(false), other(NULL), running(false) {}
    ~Model() { for (Item* i : items) delete i; }
    bool in(CtxType t) { for (Ctx& x : stack) if (x.type == t) return true; return false; }

    void skip_silent() {
        // Items without any callbacks go away when their turn comes
        while (pending.size()) {
            Item* i = items[pending.front()];
            if (i->has_run || i->has_free || !i->batch) break;
            i->st = DONE;
            pending.pop_front();
        }
    }
    void remove_pending(int id) {
        for (size_t k = 0; k < pending.size(); k++) if (pending[k] == id) { pending.erase(pending.begin() + k); return; }
    }
    void on_run(Item* i) {
        vh_op("run %d", i->id); vh_mix(0x100 + i->id);
        CHECK(!dead, "callback %d runs after the queue is gone", i->id);
        CHECK(!stack.empty() && stack.back().type == DISPATCH, "callback %d runs synchronously", i->id);
        CHECK(awaiting < 0, "callback %d runs before free function of %d", i->id, awaiting);
        CHECK(i->runs == 0 && i->st == PENDING, "callback %d runs %s", i->id, i->runs ? "again" : "although it was cancelled");
        CHECK(i->batch, "callback %d runs too early", i->id);
        skip_silent();
        CHECK(pending.size() && pending.front() == i->id, "callback %d runs out of order, expected %d", i->id, pending.empty() ? -1 : pending.front());
        i->runs++;
        pending.pop_front();
        i->st = i->has_free ? RAN : DONE;
        if (i->has_free) awaiting = i->id;
        CNT("run");
        if (other && r.pct(20)) nested();
        script(i->run_script, true);
    }
    void on_free(Item* i) {
        vh_op("free %d", i->id); vh_mix(0x200 + i->id);
        CHECK(i->frees == 0, "free function of %d is called again", i->id);
        CHECK(!stack.empty(), "free function of %d is called out of the blue", i->id);
        Ctx& x = stack.back();
        i->frees++;
        bool batch_phase = false;
        switch (x.type) {
        case DISPATCH:
            if (i->st == RAN) {
                CHECK(awaiting == i->id, "free function of %d is called instead of %d", i->id, awaiting);
                awaiting = -1;
                batch_phase = true;
            } else if (dead) {
                // The queue has been released by one of the callbacks
                CHECK(i->st == PENDING, "free function of %d in state %d", i->id, i->st);
                remove_pending(i->id);
                CNT("freed_by_death_in_callback");
            } else {
                CHECK(!i->has_run && i->st == PENDING && i->batch, "free function of %d is called without running it", i->id);
                CHECK(awaiting < 0, "free function of %d is called before that of %d", i->id, awaiting);
                skip_silent();
                CHECK(pending.size() && pending.front() == i->id, "free function of %d is called out of order", i->id);
                pending.pop_front();
                batch_phase = true;
            }
            break;
        case CANCEL_TAG:
            CHECK(x.expect == i->id && !x.seen, "cancel freed %d, expected %d", i->id, x.expect);
            x.seen++;
            break;
        case CANCEL_ALL:
            CHECK(i->st == LIMBO || (i->st == PENDING && (size_t)i->id >= x.first_new), "cancel all freed %d in state %d", i->id, i->st);
            remove_pending(i->id);
            x.seen++;
            break;
        case FINAL:
            CHECK(i->st == PENDING, "last unref freed %d in state %d", i->id, i->st);
            remove_pending(i->id);
            x.seen++;
            break;
        }
        i->st = DONE;
        CNT("freed");
        if (dead) return;
        script(i->free_script, batch_phase);
    }
    static void run_cb(gpointer p) { Item* i = (Item*)p; i->m->on_run(i); }
    static void free_cb(gpointer p) { Item* i = (Item*)p; i->m->on_free(i); }

    std::vector<u64> gen_script() {
        std::vector<u64> s;
        if (r.pct(55)) return s;
        for (int n = 1 + (int)r.below(r.pct(15) ? 6 : 2); n; n--) s.push_back(r.next());
        return s;
    }
    // Wide tags have the same low bits (32 of them, 8 of them etc.)
    GUtilIdleQueueTag tag() {
        const u64 t = r.below(tags);
        if (!wide) return t == (u64)tags - 1 && tags > 3 ? (GUtilIdleQueueTag)-1 : (GUtilIdleQueueTag)t;
        if (tagset.size()) return tagset[t % tagset.size()];
        static const int shift[] = { 63, 32, 31, 48, 16, 8 };
        return (GUtilIdleQueueTag)((t & 1 ? wide : 0) ^ (t >> 1 ? 1ull << shift[(t >> 1) % 6] : 0));
    }
    void add() {
        if (--budget < 0) return;
        GMainContext* ctx = NULL;
        if (own_context && r.pct(40)) {
            // It's the default context that matters
            ctx = g_main_context_new();
            g_main_context_push_thread_default(ctx);
            CNT("add_other_context");
        }
        add_item();
        if (ctx) {
            g_main_context_pop_thread_default(ctx);
            CHECK(!g_main_context_pending(ctx), "the queue uses thread default context");
            g_main_context_unref(ctx);
        }
    }
    void add_item() {
        Item* i = new Item();
        i->m = this; i->id = (int)items.size(); i->st = PENDING; i->batch = i->must = false; i->runs = i->frees = 0;
        i->has_run = other || !r.pct(6); i->has_free = !r.pct(25);
        const int form = (int)r.below(4);
        i->tag = form & 1 ? tag() : 0;
        if (!(form & 2)) i->has_free = false;
        if (big && !r.pct(1)) ;
        else if (i->has_run && depth < 3) i->run_script = gen_script();
        if (i->has_free && depth < 3 && !big && r.pct(60)) i->free_script = gen_script();
        items.push_back(i);
        pending.push_back(i->id);
        vh_op("add %d tag=%ld%s%s form=%d", i->id, (long)i->tag, i->has_run ? " run" : "", i->has_free ? " free" : "", form);
        GUtilIdleFunc rf = i->has_run ? run_cb : NULL;
        GFreeFunc ff = i->has_free ? free_cb : NULL;
        switch (form) {
        case 0: gutil_idle_queue_add(q, rf, i); break;
        case 1: gutil_idle_queue_add_tag(q, i->tag, rf, i); break;
        case 2: gutil_idle_queue_add_full(q, rf, i, ff); break;
        case 3: gutil_idle_queue_add_tag_full(q, i->tag, rf, i, ff); break;
        }
        CNT("add");
        if (in(DISPATCH)) CNT("add_from_callback");
    }
    bool tag_in_limbo(GUtilIdleQueueTag t) { for (Item* i : items) if (i->st == LIMBO && i->tag == t) return true; return false; }
    int find(GUtilIdleQueueTag t) { for (int id : pending) if (items[id]->tag == t) return id; return -1; }
    void contains(GUtilIdleQueueTag t) {
        if (tag_in_limbo(t)) return;
        const int id = find(t);
        vh_op("contains %ld", (long)t);
        const gboolean got = gutil_idle_queue_contains_tag(q, t);
        CHECK_EQ(!!got, id >= 0, "contains_tag");
        vh_mix(got);
        CNT("contains");
    }
    void cancel_tag(GUtilIdleQueueTag t) {
        if (tag_in_limbo(t)) return;
        const int id = find(t);
        vh_op("cancel %ld -> %d", (long)t, id);
        if (id >= 0) {
            const size_t pos = std::find(pending.begin(), pending.end(), id) - pending.begin();
            if (pos == 0) CNT("cancel_first"); else if (pos + 1 == pending.size()) CNT("cancel_last"); else CNT("cancel_middle");
            if (in(DISPATCH)) CNT("cancel_from_callback");
            remove_pending(id);
            items[id]->st = LIMBO;
        } else CNT("cancel_nothing");
        const State after = DONE;
        if (id >= 0 && !items[id]->has_free) items[id]->st = DONE;
        // During the call the item is neither pending nor in limbo for queries
        if (id >= 0) items[id]->st = DONE;
        stack.push_back({ CANCEL_TAG, id, 0, 0 });
        const gboolean ret = gutil_idle_queue_cancel_tag(q, t);
        const Ctx x = stack.back();
        stack.pop_back();
        (void)after;
        CHECK_EQ(!!ret, id >= 0, "cancel_tag");
        if (id >= 0 && items[id]->has_free) CHECK(x.seen == 1, "cancelled item %d was not freed by cancel_tag", id);
        vh_mix(ret);
    }
    void begin_cancel_all() {
        for (int id : pending) items[id]->st = LIMBO;
        pending.clear();
        stack.push_back({ CANCEL_ALL, -1, 0, items.size() });
    }
    void end_cancel_all(size_t upto) {
        stack.pop_back();
        for (size_t k = 0; k < upto; k++) {
            if (items[k]->st == LIMBO && !items[k]->has_free) items[k]->st = DONE;
            CHECK(items[k]->st != LIMBO, "item %d was not freed by cancel_all", (int)k);
        }
    }
    void cancel_all() {
        vh_op("cancel_all (%d pending)", (int)pending.size());
        const size_t n = items.size();
        begin_cancel_all();
        gutil_idle_queue_cancel_all(q);
        end_cancel_all(n);
        CNT("cancel_all");
        if (in(DISPATCH)) CNT("cancel_all_from_callback");
    }
    void unref(bool use_free) {
        refs--;
        vh_op("%s (refs left %d, %d pending)", use_free ? "free" : "unref", refs, (int)pending.size());
        GUtilIdleQueue* p = q;
        if (use_free) {
            const size_t n = items.size();
            if (!refs) {
                // Frees everything and drops the reference in one go
                dead = true;
                begin_cancel_all();
                gutil_idle_queue_free(p);
                end_cancel_all(n);
            } else {
                begin_cancel_all();
                gutil_idle_queue_free(p);
                end_cancel_all(n);
            }
        } else if (!refs) {
            dead = true;
            if (!in(DISPATCH)) {
                stack.push_back({ FINAL, -1, 0, 0 });
                gutil_idle_queue_unref(p);
                stack.pop_back();
                for (int id : pending) CHECK(!items[id]->has_free, "item %d was not freed by the last unref", id);
                for (int id : pending) items[id]->st = DONE;
                pending.clear();
                CNT("last_unref");
            } else {
                CNT("last_unref_from_callback");
                gutil_idle_queue_unref(p);
            }
        } else {
            gutil_idle_queue_unref(p);
        }
        if (dead) q = NULL;
    }
    void op(u64 code, bool may_die) {
        Rng save = r;
        r = Rng(code);
        const int k = (int)r.below(100);
        if (k < 45 - cancel_bias / 2) add();
        else if (k < 55) contains(tag());
        else if (k < 75) cancel_tag(tag());
        else if (k < 79) cancel_all();
        else if (k < 84) { vh_op("ref"); CHECK(gutil_idle_queue_ref(q) == q, "ref"); refs++; }
        else if (k < 89) { if (refs > 1) unref(false); }
        else if (k < 92) { if (refs > 1) unref(true); }
        else if (k < 94) { if (may_die && (refs == 1 || r.pct(30))) { while (refs > 1) unref(false); unref(r.pct(50)); } }
        else add();
        const u64 left = r.next();
        r = save;
        (void)left;
    }
    void script(const std::vector<u64>& s, bool may_die) {
        depth++;
        for (u64 code : s) { if (dead) break; op(code, may_die); }
        depth--;
    }
    void begin_iteration() {
        const bool had = !pending.empty();
        if (!dead && had) CHECK(g_main_context_pending(NULL), "%d callbacks are pending but nothing is scheduled", (int)pending.size());
        for (int id : pending) items[id]->batch = items[id]->must = true;
        vh_op("iterate (%d pending)", (int)pending.size());
        if (pending.size() > 300) CNT("iterate_large");
        stack.push_back({ DISPATCH, -1, 0, 0 });
    }
    void end_iteration() {
        stack.pop_back();
        CHECK(awaiting < 0, "free function of %d was not called", awaiting);
        skip_silent();
        if (dead) {
            for (Item* i : items) CHECK(!i->has_free || i->frees == 1, "free function of %d was not called", i->id);
            for (int id : pending) items[id]->st = DONE;
            pending.clear();
        } else {
            for (int id : pending) { CHECK(!items[id]->must, "callback %d was not run", id); items[id]->batch = false; }
        }
        CNT("iterations");
    }
    // Runs the main loop from inside of a callback. The source is not recursive, but that of
    // the other queue is dispatched, and then maybe once again by the outer iteration
    void nested() {
        Model& o = *other;
        for (const Ctx& x : o.stack) if (x.type != DISPATCH) return;
        if (o.dead || o.stack.size() != 1 || o.pending.empty() || o.awaiting >= 0 || o.running) return;
        running = true;
        vh_op("nested iteration");
        CNT("nested");
        o.begin_iteration();
        g_main_context_iteration(NULL, FALSE);
        o.end_iteration();
        for (int id : o.pending) o.items[id]->batch = true;
        running = false;
    }
    void start(bool cancels, bool large) {
        tags = 1 + (int)r.below(5);
        if (r.pct(20)) { wide = r.pct(50) ? r.next() : ~(GUtilIdleQueueTag)0; tags = 2 + (int)r.below(11); }
        if (wide && r.pct(60)) for (int k = 0; k < tags; k++) tagset.push_back((GUtilIdleQueueTag)(r.pct(50) ? r.bits64() : r.size(1000)));
        own_context = r.pct(10);
        q = gutil_idle_queue_new();
        CHECK(q != NULL, "new");
        if (large) {
            big = true;
            int n = r.pct(30) ? (int)vh_big_size(r) : 100 + (int)r.below(3000);
            budget = n + 100;
            own_context = false;
            while (n--) add();
            CNT("large");
        }
    }
    void finish() {
        const size_t n = items.size();
        stack.clear();
        for (size_t k = 0; k < n; k++) {
            Item* i = items[k];
            CHECK(i->frees == (i->has_free ? 1 : 0), "free function of %d was called %d times", i->id, i->frees);
            CHECK(i->runs <= 1, "callback %d was called %d times", i->id, i->runs);
        }
        if (n > 1) vh_nontrivial();
    }
};

int foreign_calls;
gboolean foreign_cb(gpointer) { foreign_calls++; return G_SOURCE_CONTINUE; }

void queue_case(Case& c, bool cancels)
{
    // Usually one queue, sometimes two independent ones
    Model m1(c, cancels ? 30 : 0), m2(c, cancels ? 30 : 0);
    Rng r(c.r.next());
    Model* const mm[2] = { &m1, &m2 };
    const int queues = c.idx % 8 == 3 ? 2 : 1;
    if (queues == 2 && r.pct(50)) { m1.other = &m2; m2.other = &m1; }
    for (int k = 0; k < queues; k++) mm[k]->start(cancels, !k && vh_big(c, 997));
    if (queues > 1) CNT("two_queues");
    const bool foreign = r.pct(30);
    guint fid = 0;
    int fexp = 0;
    foreign_calls = 0;
    const bool nesting = m1.other != NULL;
    if (foreign) fid = g_idle_add(foreign_cb, NULL);
    const auto alive = [&]() { for (int k = 0; k < queues; k++) if (!mm[k]->dead) return true; return false; };
    const auto pending = [&]() { for (int k = 0; k < queues; k++) if (!mm[k]->dead && !mm[k]->pending.empty()) return true; return false; };
    const auto iterate = [&]() {
        for (int k = 0; k < queues; k++) mm[k]->begin_iteration();
        g_main_context_iteration(NULL, FALSE);
        for (int k = 0; k < queues; k++) mm[k]->end_iteration();
        if (nesting) fexp = foreign_calls; else fexp += foreign;
    };
    const int steps = 10 + (int)r.below(50) * queues;
    for (int i = 0; i < steps && alive(); i++) {
        Model& m = *mm[r.below(queues)];
        if (m.r.pct(cancels ? 20 : 35)) {
            if (foreign || pending() || g_main_context_pending(NULL)) iterate();
        } else if (!m.dead) {
            const bool may_die = m.r.pct(15);
            m.op(m.r.next(), may_die);
        }
        if (foreign) CHECK_EQ(foreign_calls, fexp, "foreign source calls");
    }
    if (alive()) {
        if (r.pct(60)) {
            for (int i = 0; i < 50 && pending(); i++) iterate();
        }
        for (int k = 0; k < queues; k++) while (!mm[k]->dead) mm[k]->unref(mm[k]->r.pct(40));
    }
    if (foreign) {
        g_main_context_iteration(NULL, FALSE);
        CHECK_EQ(foreign_calls, fexp + 1, "foreign source calls");
        CHECK(g_source_remove(fid), "foreign source was removed");
    }
    // Nothing may happen any more
    m1.stack.clear();
    m2.stack.clear();
    for (int i = 0; i < 3; i++) g_main_context_iteration(NULL, FALSE);
    for (int k = 0; k < queues; k++) mm[k]->finish();
}
}
static void c11(Case& c) { queue_case(c, false); }
static void c12(Case& c) { queue_case(c, true); }
VH_PROP(C11, c11);
VH_PROP(C12, c12);
