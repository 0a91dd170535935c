// C15: int array against std::vector
#include "../harness/vh.h"
extern "C" {
#include "gutil_intarray.h"
#include "gutil_ints.h"
}

namespace {
typedef std::vector<int> V;
struct A { GUtilIntArray* a; V v; int refs; };

struct ArrayCase {
    Case& c; Rng& r; int alphabet;
    std::vector<A> arrays;
    ArrayCase(Case& c_) : c(c_), r(c_.r) { alphabet = (int)r.below(4); big = vh_big(c, 997); if (big) alphabet = 1 + alphabet % 3; }
    bool big;

    int val() {
        switch (alphabet) {
        case 0: return (int)r.below(3);
        case 1: { static const int x[] = { INT_MIN, INT_MIN + 1, -1, 0, 1, INT_MAX - 1, INT_MAX }; return x[r.below(7)]; }
        default: return r.int32();
        }
    }
    V vals(size_t max) { V v(r.size(max)); for (int& x : v) x = val(); return v; }
    void check(A& a, const char* op) {
        CHECK_EQ(a.a->count, (guint)a.v.size(), op);
        if (a.v.size()) {
            CHECK(a.a->data, "%s: no data", op);
            for (size_t i = 0; i < a.v.size(); i++)
                if (a.a->data[i] != a.v[i]) vh_fail("oracle", "%s: element %u of %u is %d, expected %d", op, (unsigned)i, (unsigned)a.v.size(), a.a->data[i], a.v[i]);
        }
    }
    A fresh() {
        A a; a.refs = 1;
        V v = vals(300);
        const bool round = r.pct(4);
        if (round) { v.resize(r.near_round(1100)); for (int& x : v) x = val(); CNT("round_size"); }
        if (big) { v.resize(vh_big_size(r)); for (int& x : v) x = val(); CNT("large"); }
        Exact e(v.data(), v.size() * sizeof(int));
        switch (big || round ? 3 : r.below(4)) {
        case 0: vh_op("new"); a.a = gutil_int_array_new(); CNT("new"); break;
        case 1: { const guint n = r.pct(95) ? (guint)r.below(50) : (guint)r.near_round(70000); vh_op("sized_new %u", n); a.a = gutil_int_array_sized_new(n); CNT("sized_new"); break; }
        case 2: { const int x = val(); vh_op("new_from_value %d", x); a.a = gutil_int_array_new_from_value(x); a.v.push_back(x); CNT("new_from_value"); break; }
        default: vh_op("new_from_vals %u", (unsigned)v.size()); a.a = gutil_int_array_new_from_vals((const int*)e.p, (guint)v.size()); a.v = v; CNT("new_from_vals"); break;
        }
        CHECK(a.a, "no array");
        check(a, "new");
        return a;
    }
    // What was added without being initialized is assigned now
    void assign(A& a, size_t from, size_t to) { for (size_t i = from; i < to; i++) a.a->data[i] = a.v[i] = val(); }
    guint position(A& a) {
        switch (r.below(5)) {
        case 0: return (guint)a.v.size();
        case 1: return (guint)(a.v.size() + r.below(5));
        case 2: return a.v.size() ? (guint)a.v.size() - 1 : 0;
        default: return (guint)r.below(a.v.size() + 1);
        }
    }
    guint wild(size_t n) {
        switch (r.below(6)) {
        case 0: return G_MAXUINT - (guint)r.below(3);
        case 1: return (guint)G_MAXINT + (guint)r.below(3);
        case 2: return (guint)(n + r.below(3));
        case 3: return (guint)0 - (guint)r.below(n + 2);
        default: return (guint)r.below(n + 1);
        }
    }
    int some(A& a) { return a.v.size() && r.pct(75) ? r.pick(a.v) : val(); }
    static bool without(V v, int x, const V& got) {     // same values in any order
        v.erase(std::remove(v.begin(), v.end(), x), v.end());
        V g = got;
        std::sort(v.begin(), v.end()); std::sort(g.begin(), g.end());
        return v == g;
    }
    V contents(A& a) { return V(a.a->data, a.a->data + a.a->count); }
    // Removal of one element which may move the last one
    void fast(A& a, size_t pos, const char* op) {
        V keep = a.v, moved = a.v;
        keep.erase(keep.begin() + pos);
        moved[pos] = moved.back(); moved.pop_back();
        CHECK_EQ(a.a->count, (guint)keep.size(), op);
        const V got = contents(a);
        CHECK(got == keep || got == moved, "%s: contents are wrong after the removal of element %u of %u", op, (unsigned)pos, (unsigned)a.v.size());
        vh_mix_buf(got.data(), got.size() * sizeof(int));
        a.v = got;
    }
    void destroy(size_t i) {
        A a = arrays[i];
        arrays.erase(arrays.begin() + i);
        const bool shared = a.refs > 1;
        switch (r.below(4)) {
        case 0: {
            vh_op("free refs=%d", a.refs);
            CHECK(!gutil_int_array_free(a.a, r.truth(true)), "freed data returned");
            CNT("free_data");
            break; }
        case 1: {
            vh_op("free keeping data refs=%d", a.refs);
            int* p = gutil_int_array_free(a.a, FALSE);
            if (a.v.empty()) CHECK(!p, "data of an empty array");
            else {
                CHECK(p, "no data");
                CHECK(!memcmp(p, a.v.data(), a.v.size() * sizeof(int)), "wrong data");
                for (size_t k = 0; k < a.v.size(); k++) p[k] = 0;
                g_free(p);
            }
            CNT("keep_data");
            break; }
        case 2: {
            vh_op("free to ints refs=%d", a.refs);
            GUtilInts* ints = gutil_int_array_free_to_ints(a.a);
            if (a.v.empty()) CHECK(!ints, "ints from an empty array");
            else {
                guint n = 0;
                CHECK(ints, "no ints");
                const int* d = gutil_ints_get_data(ints, &n);
                CHECK_EQ(n, (guint)a.v.size(), "count of ints");
                CHECK(!memcmp(d, a.v.data(), n * sizeof(int)), "wrong ints");
                gutil_ints_unref(ints);
            }
            CNT("free_to_ints");
            break; }
        default:
            vh_op("unref");
            for (int k = a.refs; k > 0; k--) { check(a, "unref"); gutil_int_array_unref(a.a); }
            CNT("unref");
            return;
        }
        // Those who still have references find it empty
        if (shared) {
            a.v.clear();
            CNT("free_shared");
            check(a, "free of a shared array");
            if (r.pct(50)) { const int x = val(); gutil_int_array_append(a.a, x); a.v.push_back(x); check(a, "append after free"); }
            for (int k = a.refs - 1; k > 0; k--) { check(a, "unref after free"); gutil_int_array_unref(a.a); }
        }
    }
    void step() {
        if (arrays.size() < 2 && (arrays.empty() || r.pct(5))) { arrays.push_back(fresh()); return; }
        const size_t ai = r.below(arrays.size());
        A& a = arrays[ai];
        V& v = a.v;
        GUtilIntArray* ret = a.a;
        const char* op = "";
        const auto some_vals = [&](size_t max) {
            if (big && v.size() < 300000 && r.pct(15)) { V x(vh_big_size(r)); for (int& y : x) y = val(); CNT("large_vals"); return x; }
            return vals(v.size() > 2000 ? 3 : max);
        };
        switch (r.below(24)) {
        case 0: case 1: { const int x = val(); vh_op(op = "append"); vh_key(x); ret = gutil_int_array_append(a.a, x); v.push_back(x); CNT("append"); break; }
        case 2: case 3: { const V x = some_vals(60); Exact e(x.data(), x.size() * sizeof(int)); vh_op("append_vals %u", (unsigned)x.size()); op = "append_vals"; ret = gutil_int_array_append_vals(a.a, x.size() || r.pct(50) ? (int*)e.p : NULL, (guint)x.size()); v.insert(v.end(), x.begin(), x.end()); CNT("append_vals"); break; }
        case 4: { const int x = val(); vh_op(op = "prepend"); vh_key(x); ret = gutil_int_array_prepend(a.a, x); v.insert(v.begin(), x); CNT("prepend"); break; }
        case 5: { const V x = some_vals(30); Exact e(x.data(), x.size() * sizeof(int)); vh_op("prepend_vals %u", (unsigned)x.size()); op = "prepend_vals"; ret = gutil_int_array_prepend_vals(a.a, (int*)e.p, (guint)x.size()); v.insert(v.begin(), x.begin(), x.end()); CNT("prepend_vals"); break; }
        case 6: case 7: { const int x = val(); const guint pos = position(a); vh_op("insert at %u of %u", pos, (unsigned)v.size()); op = "insert"; vh_key(x);
            const size_t old = v.size();
            ret = gutil_int_array_insert(a.a, pos, x);
            if (pos > old) { v.resize(pos); CHECK_EQ(a.a->count, pos + 1, op); assign(a, old, pos); CNT("insert_beyond"); }
            v.insert(v.begin() + pos, x); CNT("insert"); break; }
        case 8: case 9: { const V x = some_vals(20); Exact e(x.data(), x.size() * sizeof(int)); guint pos = position(a); vh_op("insert_vals %u at %u of %u", (unsigned)x.size(), pos, (unsigned)v.size()); op = "insert_vals";
            const size_t old = v.size();
            ret = gutil_int_array_insert_vals(a.a, pos, (int*)e.p, (guint)x.size());
            if (x.size()) {
                if (pos > old) { v.resize(pos); CHECK_EQ(a.a->count, pos + (guint)x.size(), op); assign(a, old, pos); CNT("insert_beyond"); }
                v.insert(v.begin() + pos, x.begin(), x.end());
            }
            CNT("insert_vals"); break; }
        case 10: { const size_t old = v.size(), n = r.pct(60) ? r.below(old + 1) : old + r.below(40); vh_op("set_count %u (was %u)", (unsigned)n, (unsigned)old); op = "set_count";
            ret = gutil_int_array_set_count(a.a, (guint)n);
            CHECK_EQ(a.a->count, (guint)n, op);
            v.resize(n);
            if (n > old) { assign(a, old, n); CNT("grow"); } else CNT("shrink");
            break; }
        case 11: case 12: { const int x = some(a); vh_op(op = "find"); vh_key(x);
            const auto it = std::find(v.begin(), v.end(), x);
            const int exp = it == v.end() ? -1 : (int)(it - v.begin());
            CHECK_EQ(gutil_int_array_find(a.a, x), exp, "find");
            CHECK_EQ(gutil_int_array_contains(a.a, x), exp >= 0 ? TRUE : FALSE, "contains");
            if (exp >= 0) CNT("found"); else CNT("not_found");
            vh_mix(exp); break; }
        case 13: case 14: { const int x = some(a); vh_op(op = "remove"); vh_key(x);
            const auto it = std::find(v.begin(), v.end(), x);
            const bool has = it != v.end();
            if (has) v.erase(it);
            CHECK_EQ(gutil_int_array_remove(a.a, x), has ? TRUE : FALSE, op);
            if (has) CNT("removed"); break; }
        case 15: { const int x = some(a); vh_op(op = "remove_fast"); vh_key(x);
            const auto it = std::find(v.begin(), v.end(), x);
            const bool has = it != v.end();
            CHECK_EQ(gutil_int_array_remove_fast(a.a, x), has ? TRUE : FALSE, op);
            if (has) { fast(a, it - v.begin(), op); CNT("removed_fast"); } break; }
        case 16: { int x = some(a); if (big) while (std::count(v.begin(), v.end(), x) > 300) x = r.int32(); const guint n = (guint)std::count(v.begin(), v.end(), x); vh_op(op = "remove_all"); vh_key(x);
            CHECK_EQ(gutil_int_array_remove_all(a.a, x), n, op);
            v.erase(std::remove(v.begin(), v.end(), x), v.end());
            if (n > 1) CNT("removed_several"); break; }
        case 17: { int x = some(a); if (big) while (std::count(v.begin(), v.end(), x) > 300) x = r.int32(); const guint n = (guint)std::count(v.begin(), v.end(), x); vh_op(op = "remove_all_fast"); vh_key(x);
            CHECK_EQ(gutil_int_array_remove_all_fast(a.a, x), n, op);
            const V got = contents(a);
            CHECK(without(v, x, got), "remove_all_fast: contents are wrong");
            if (!n) CHECK(got == v, "remove_all_fast: nothing was removed but the contents have changed");
            v = got;
            if (n > 1) CNT("removed_several_fast"); break; }
        case 18: { const guint pos = wild(v.size()); vh_op("remove_index %u of %u", pos, (unsigned)v.size()); op = "remove_index";
            ret = gutil_int_array_remove_index(a.a, pos);
            if (pos < v.size()) v.erase(v.begin() + pos); else CNT("out_of_range");
            break; }
        case 19: { const guint pos = wild(v.size()); vh_op("remove_index_fast %u of %u", pos, (unsigned)v.size()); op = "remove_index_fast";
            ret = gutil_int_array_remove_index_fast(a.a, pos);
            if (pos < v.size()) fast(a, pos, op); else CNT("out_of_range");
            break; }
        case 20: { const guint pos = wild(v.size()), n = wild(v.size()); vh_op("remove_range %u+%u of %u", pos, n, (unsigned)v.size()); op = "remove_range";
            ret = gutil_int_array_remove_range(a.a, pos, n);
            if (pos < v.size()) { const size_t k = std::min((size_t)n, v.size() - pos); v.erase(v.begin() + pos, v.begin() + pos + k); if (k < n) CNT("clipped_range"); } else CNT("out_of_range");
            break; }
        case 21:
            if (r.pct(50)) { vh_op(op = "sort ascending"); gutil_int_array_sort_ascending(a.a); std::sort(v.begin(), v.end()); CNT("sort_ascending"); }
            else { vh_op(op = "sort descending"); gutil_int_array_sort_descending(a.a); std::sort(v.begin(), v.end(), std::greater<int>()); CNT("sort_descending"); }
            break;
        case 22: if (a.refs < 5) { vh_op(op = "ref"); ret = gutil_int_array_ref(a.a); a.refs++; CNT("ref"); } break;
        case 23:
            if (a.refs > 1 && r.pct(60)) { vh_op(op = "unref"); gutil_int_array_unref(a.a); a.refs--; CNT("non_last_unref"); }
            else if (r.pct(30)) { destroy(ai); return; }
            break;
        }
        CHECK(ret == a.a, "%s: returned pointer is wrong", op);
        check(a, op);
        for (A& x : arrays) if (&x != &a) check(x, "another array");
        if (v.size() > 1) vh_nontrivial();
    }
    void run() {
        if (big && (c.idx / 997) % 3 == 0) {
            // The same value all over
            const bool slow = (c.idx / 997) % 48 == 24;
            const guint n = slow ? 65536 + (guint)r.below(40) : (guint)vh_big_size(r), extra = r.pct(50);
            const int x = r.int32(), y = x ^ 1;
            V v(n, x);
            if (extra) v.insert(v.begin() + r.below(n), y);
            vh_op("%u equal values", n);
            GUtilIntArray* a = gutil_int_array_new_from_vals(v.data(), (guint)v.size());
            const guint k = slow ? gutil_int_array_remove_all(a, x) : gutil_int_array_remove_all_fast(a, x);
            CHECK_EQ(k, n, "number of values removed");
            CHECK_EQ(a->count, extra, "number of values left");
            CHECK(!extra || a->data[0] == y, "wrong values have been removed");
            gutil_int_array_unref(a);
            vh_heartbeat();
            if (slow) CNT("equal_values_slow"); else CNT("equal_values");
        }
        const int steps = big ? 30 : 20 + (int)r.below(c.thorough ? 400 : 200);
        for (int i = 0; i < steps; i++) step();
        for (A& a : arrays) vh_mix_buf(a.v.data(), a.v.size() * sizeof(int));
        while (arrays.size()) destroy(0);
    }
};
void c15(Case& c) { ArrayCase ac(c); ac.run(); }
VH_PROP(C15, c15);
}
