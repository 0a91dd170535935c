// C05, C06: ring buffer against std::deque and an ownership ledger
#include "../harness/vh.h"
#include <functional>
extern "C" {
#include "gutil_ring.h"
}

static std::vector<size_t>* freed;
static std::vector<size_t>* freed2;
// What the free function does to the ring being cleared
static std::function<void()>* on_free;
static void free1(gpointer p) { freed->push_back((size_t)p); if (on_free) (*on_free)(); }
static void free2(gpointer p) { freed2->push_back((size_t)p); if (on_free) (*on_free)(); }

struct RingCase {
    Case& c; Rng& r;
    GUtilRing* ring;
    std::deque<size_t> q;
    int maxsz;
    bool overalloc;         // allocation may legitimately exceed the limit
    int ff;                 // 0 - none, 1 - free1, 2 - free2
    std::vector<size_t> f1, f2, exp1, exp2;
    size_t next_id;
    int refs;

    RingCase(Case& c_) : c(c_), r(c_.r), next_id(1), refs(1) {}

    void expect_free(size_t id) { if (ff == 1) exp1.push_back(id); else if (ff == 2) exp2.push_back(id); }
    void check_freed(const char* op) {
        for (int k = 0; k < 2; k++) {
            std::vector<size_t>& got = k ? f2 : f1;
            std::vector<size_t>& exp = k ? exp2 : exp1;
            if (got == exp) continue;
            size_t i = 0;
            while (i < got.size() && i < exp.size() && got[i] == exp[i]) i++;
            vh_fail("oracle", "%s: free function %d calls: got %u expected %u, first difference at %u: %ld vs %ld",
                op, k + 1, (unsigned)got.size(), (unsigned)exp.size(), (unsigned)i,
                i < got.size() ? (long)got[i] : -1L, i < exp.size() ? (long)exp[i] : -1L);
        }
    }
    void check_state(const char* op, bool full) {
        CHECK_EQ(gutil_ring_size(ring), (int)q.size(), op);
        CHECK_EQ(gutil_ring_max_size(ring), maxsz, op);
        const int n = (int)q.size();
        if (full || n <= 24) {
            for (int i = 0; i < n; i++)
                if ((size_t)gutil_ring_data_at(ring, i) != q[i])
                    vh_fail("oracle", "%s: element at %d is %ld, expected %ld (size %d)", op, i,
                        (long)(size_t)gutil_ring_data_at(ring, i), (long)q[i], n);
        } else {
            for (int k = 0; k < 8; k++) {
                int i = k == 0 ? 0 : k == 1 ? n - 1 : (int)r.below(n);
                if ((size_t)gutil_ring_data_at(ring, i) != q[i])
                    vh_fail("oracle", "%s: element at %d is %ld, expected %ld (size %d)", op, i,
                        (long)(size_t)gutil_ring_data_at(ring, i), (long)q[i], n);
            }
        }
        CHECK(!gutil_ring_data_at(ring, n), "%s: something is there past the end", op);
        CHECK(!gutil_ring_data_at(ring, -1), "%s: something is there before the beginning", op);
        if (full) {
            const int far = (int)r.range(n, INT_MAX), before = -1 - (int)r.below((u64)INT_MAX + 1);
            CHECK(!gutil_ring_data_at(ring, far), "%s: something is there at %d", op, far);
            CHECK(!gutil_ring_data_at(ring, before), "%s: something is there at %d", op, before);
        }
    }
    bool full() { return maxsz >= 0 && (int)q.size() >= maxsz; }
    // Mostly different ones, but any pointer may be there, and more than once
    size_t pick_id() {
        switch (r.below(32)) {
        case 0: return 0;
        case 1: return r.pct(30) ? (size_t)-1 : (size_t)r.next();
        case 2: case 3: if (q.size()) { CNT("put_again"); return r.pct(50) ? q[r.below(q.size())] : r.pct(50) ? q.back() : q.front(); }
        // fallthrough
        default: return next_id++;
        }
    }
    void put(bool front) {
        const size_t id = pick_id();
        vh_op("%s %lu", front ? "put_front" : "put", (unsigned long)id);
        const gboolean ok = front ? gutil_ring_put_front(ring, (gpointer)id) : gutil_ring_put(ring, (gpointer)id);
        CHECK_EQ(!!ok, !full(), front ? "put_front" : "put");
        if (ok) { if (front) q.push_front(id); else q.push_back(id); CNT("put_ok"); } else CNT("put_full");
        vh_mix(ok);
    }
    void get(bool last) {
        vh_op(last ? "get_last" : "get");
        const size_t x = (size_t)(last ? gutil_ring_get_last(ring) : gutil_ring_get(ring));
        size_t e = 0;
        if (q.size()) { if (last) { e = q.back(); q.pop_back(); } else { e = q.front(); q.pop_front(); } CNT("get"); }
        else CNT("get_empty");
        CHECK_EQ(x, e, last ? "get_last" : "get");
        vh_mix(x);
    }
    void drop(bool last) {
        int n;
        switch (r.below(6)) {
        case 0: n = -(int)r.below(3); break;
        case 1: n = (int)q.size() + (int)r.below(3); break;
        case 2: n = INT_MAX - (int)r.below(2); break;
        case 3: n = (int)q.size() - 1; break;
        default: n = (int)r.below(q.size() + 1); break;
        }
        vh_op("%s %d", last ? "drop_last" : "drop", n);
        const int e = n <= 0 ? 0 : MIN(n, (int)q.size());
        const bool all = e == (int)q.size();
        const int ret = last ? gutil_ring_drop_last(ring, n) : gutil_ring_drop(ring, n);
        CHECK_EQ(ret, e, last ? "drop_last" : "drop");
        for (int i = 0; i < e; i++) {
            if (last && !all) { expect_free(q.back()); q.pop_back(); }
            else { expect_free(q.front()); q.pop_front(); }
        }
        CNTN("dropped", e);
    }
    void set_max() {
        int m;
        switch (r.below(5)) {
        case 0: m = -(int)r.below(3) - 1; break;
        case 1: m = (int)r.below(q.size() + 1); break;
        case 2: m = (int)q.size() + (int)r.below(4); break;
        case 3: m = INT_MAX; break;
        default: m = r.pct(90) ? (int)r.size(200) : (int)r.near_round(2000); break;
        }
        vh_op("set_max %d", m);
        gutil_ring_set_max_size(ring, m);
        if (m < 0) m = -1;
        if (m >= 0) while ((int)q.size() > m) { expect_free(q.front()); q.pop_front(); CNT("dropped_by_max"); }
        if (m >= 0 && (maxsz < 0 || m < maxsz)) overalloc = true;
        maxsz = m;
    }
    void step() {
        switch (r.below(30)) {
        case 0: case 1: case 2: case 3: case 4: case 5: case 6: put(false); break;
        case 7: case 8: case 9: case 10: put(true); break;
        case 11: case 12: case 13: case 14: get(false); break;
        case 15: case 16: case 17: get(true); break;
        case 18: drop(false); break;
        case 19: drop(true); break;
        case 20:
            if (r.pct(50)) {
                std::deque<size_t> added;
                std::function<void()> fn = [&] {
                    // What is added by the free function isn't a part of what is being cleared
                    if (!r.pct(60)) return;
                    const size_t id = next_id++;
                    vh_op("put %lu from the free function", (unsigned long)id);
                    if (gutil_ring_put(ring, (gpointer)id)) {
                        added.push_back(id);
                        CNT("put_while_clearing");
                    } else CHECK(maxsz >= 0, "unlimited ring is full");
                };
                const bool re = ff && r.pct(40);
                vh_op("clear%s", re ? " (and put more)" : "");
                if (re) on_free = &fn;
                gutil_ring_clear(ring);
                on_free = NULL;
                while (q.size()) { expect_free(q.front()); q.pop_front(); }
                q = added;
                CNT("clear");
            }
            break;
        case 21: case 22: vh_op("compact"); gutil_ring_compact(ring); overalloc = true; CNT("compact"); break;
        case 23: {
            const int n = (int)(r.pct(50) ? q.size() + r.below(20) : r.size(300));
            vh_op("reserve %d", n);
            const gboolean ok = gutil_ring_reserve(ring, n);
            if (maxsz < 0 || n <= maxsz) CHECK(ok, "reserve(%d) failed, maximum is %d", n, maxsz);
            else if (!overalloc) CHECK(!ok, "reserve(%d) succeeded, maximum is %d", n, maxsz);
            CNT("reserve");
            break; }
        case 24: case 25: {
            int n = r.pct(30) ? 0 : -1;
            vh_op("flatten");
            gpointer* d = gutil_ring_flatten(ring, &n);
            CHECK_EQ(n, (int)q.size(), "flatten size");
            CHECK_EQ(d != NULL, q.size() > 0, "flatten result");
            for (int i = 0; i < n; i++)
                if ((size_t)d[i] != q[i]) vh_fail("oracle", "flatten: element %d is %ld, expected %ld", i, (long)(size_t)d[i], (long)q[i]);
            if (r.pct(20)) CHECK(gutil_ring_flatten(ring, NULL) == d, "flatten again moved the data");
            CNT("flatten");
            break; }
        case 26: {
            int n = r.pct(50) ? (int)r.below(300) : r.int32();
            if (maxsz >= 0 && r.pct(60)) n = (int)MIN((i64)maxsz - (i64)q.size() + r.range(-1, 1), (i64)INT_MAX);
            const bool e = maxsz < 0 || (i64)q.size() + n <= maxsz;
            vh_op("can_put %d", n);
            CHECK_EQ(!!gutil_ring_can_put(ring, n), e, "can_put");
            CNT("can_put");
            break; }
        case 27: if (r.pct(50)) set_max(); break;
        case 28: {
            if (r.pct(50)) {
                ff = (int)r.below(3);
                vh_op("set_free_func %d", ff);
                gutil_ring_set_free_func(ring, ff == 1 ? free1 : ff == 2 ? free2 : NULL);
                CNT("set_free_func");
            }
            break; }
        case 29:
            if (refs > 1 && r.pct(50)) { vh_op("unref"); gutil_ring_unref(ring); refs--; }
            else { vh_op("ref"); CHECK(gutil_ring_ref(ring) == ring, "ref"); refs++; }
            break;
        }
    }
    void run() {
        freed = &f1; freed2 = &f2;
        const bool big = vh_big(c, 997);
        const int bigsize = big ? (int)vh_big_size(r) : 0;
        const int reserved = big && r.pct(70) ? bigsize - (r.pct(50) ? (int)r.below(100) : 0) : r.pct(50) ? 0 : (int)r.size(100);
        maxsz = big ? (r.pct(40) ? bigsize - (int)r.range(-3, 20) : -1) : r.pct(40) ? -1 : r.pct(90) ? (int)r.size(100) : (int)r.near_round(1200);
        ff = r.pct(30) ? 0 : 1 + (int)r.below(2);
        overalloc = maxsz >= 0 && reserved > maxsz;
        const GDestroyNotify fn = ff == 1 ? free1 : ff == 2 ? free2 : NULL;
        vh_op("new reserved=%d max=%d free=%d", reserved, maxsz, ff);
        if (!reserved && maxsz < 0 && !ff) ring = gutil_ring_new();
        else if (!ff) ring = gutil_ring_sized_new(reserved, maxsz < 0 ? -(int)(1 + r.below(3)) : maxsz);
        else ring = gutil_ring_new_full(reserved, maxsz < 0 ? -(int)(1 + r.below(3)) : maxsz, fn);
        CHECK(ring != NULL, "new");
        int ops = r.pct(10) ? 400 : 20 + (int)r.below(120);
        // Some cases build up a large ring first (growth with wrap around)
        int bulk = !r.pct(15) ? 0 : r.pct(60) ? (int)r.below(c.thorough ? 5000 : 1200) : (int)r.near_round(c.thorough ? 5000 : 1200);
        const bool exact = bulk && r.pct(40);
        if (big) {
            ops = 40;
            // Wrapped around at a random place
            const int rot = (int)r.below(bigsize);
            for (int i = 0; i < rot; i++) put(false);
            for (int i = 0; i < rot; i++) get(false);
            for (int i = 0; i < bigsize; i++) put(r.pct(3));
            check_state("large ring", true);
            CNT("large");
        } else if (bulk) {
            const int rot = (int)r.below(40);
            for (int i = 0; i < rot; i++) { put(false); get(false); }
            for (int i = 0; i < bulk; i++) { put(r.pct(20)); if (!exact && r.pct(25)) get(r.pct(30)); }
            check_state("bulk", true);
        }
        for (int i = 0; i < ops; i++) {
            step();
            check_state("after step", (i & 31) == 31);
            check_freed("after step");
        }
        check_state("end", true);
        while (refs > 1) { gutil_ring_unref(ring); refs--; check_freed("non-last unref"); check_state("non-last unref", false); }
        if (ff) for (size_t id : q) expect_free(id);
        CNTN("left_at_last_unref", q.size());
        vh_op("last unref, size %d", (int)q.size());
        gutil_ring_unref(ring);
        check_freed("last unref");
        for (size_t x : f1) vh_mix(x);
        for (size_t x : f2) vh_mix(x);
        CNTN("freed", f1.size() + f2.size());
        vh_nontrivial();
    }
};
static void ring_case(Case& c) { RingCase rc(c); rc.run(); }
VH_PROP(C05, ring_case);
VH_PROP(C06, ring_case);
