// C25: object vectors
#include "../harness/vh.h"
extern "C" {
#include "gutil_objv.h"
#include "gutil_misc.h"
}
namespace {
struct Obj { GObject* o; int id, ours; bool gone; };
void weak(gpointer p, GObject*) { ((Obj*)p)->gone = true; }
struct Vec { GObject** p; std::vector<Obj*> v; };
struct ObjCase {
    Case& c; Rng& r;
    std::vector<Obj*> objs; std::vector<Vec> vecs;
    bool big, mid;
    ObjCase(Case& c_) : c(c_), r(c_.r), big(vh_big(c_, 997)), mid(!big && c_.idx % 61 == 11) {}
    ~ObjCase() { for (Obj* o : objs) delete o; }
    void check_refs(const char* op) {
        std::vector<int> count(objs.size());
        for (Vec& v : vecs) for (Obj* o : v.v) count[o->id]++;
        for (Obj* o : objs) {
            const int n = o->ours + count[o->id];
            CHECK(o->gone == (n == 0), "%s: object %d with %d references is %s", op, o->id, n, o->gone ? "gone" : "still there");
            if (n) CHECK_EQ((int)o->o->ref_count, n, op);
        }
    }
    void check(Vec& v, const char* op) {
        if (v.v.size()) CHECK(v.p, "%s: vector is NULL", op);
        if (!v.p) return;
        for (size_t i = 0; i < v.v.size(); i++) CHECK(v.p[i] == v.v[i]->o, "%s: wrong element %u of %u", op, (unsigned)i, (unsigned)v.v.size());
        CHECK(!v.p[v.v.size()], "%s: not terminated", op);
    }
    Obj* fresh() {
        Obj* o = new Obj();
        o->o = (GObject*)g_object_new(G_TYPE_OBJECT, NULL); o->id = (int)objs.size(); o->ours = 1; o->gone = false;
        g_object_weak_ref(o->o, weak, o);
        objs.push_back(o);
        return o;
    }
    // An object which is alive
    Obj* any() {
        std::vector<Obj*> a;
        for (Obj* o : objs) if (!o->gone) a.push_back(o);
        return a.empty() || (a.size() < 5 && r.pct(20)) ? fresh() : r.pick(a);
    }
    Obj* in(Vec& v) { return v.v.size() && r.pct(75) ? r.pick(v.v) : any(); }
    gsize wild(size_t n) {
        switch (r.below(8)) {
        case 0: return n + r.below(3);
        case 1: return G_MAXSIZE - r.below(3);
        case 2: return (gsize)G_MAXUINT + r.below(3);
        case 3: return ((gsize)1 << 32) + r.below(n + 1);
        default: return r.below(n + 1);
        }
    }
    void free_vec(size_t i) {
        Vec v = vecs[i];
        vh_op("free %u of %u", (unsigned)i, (unsigned)v.v.size());
        vecs.erase(vecs.begin() + i);
        gutil_objv_free(v.p);
        check_refs("free");
        CNT("free");
    }
    void new_vec() {
        Vec v; v.p = NULL;
        Obj* o[5]; const bool many = r.pct(2); const int n = many ? 0 : (int)r.below(6);
        GObject* a[300];
        if (many) for (GObject*& x : a) { v.v.push_back(any()); x = v.v.back()->o; }
        for (int i = 0; i < n; i++) v.v.push_back(o[i] = any());
        vh_op("new %d", many ? 300 : n);
        if (many) { v.p = vh_call_n<300>([](auto... x) { return gutil_objv_new(x...); }, a); CNT("new_many"); }
        else switch (n) {
        case 0: if (r.pct(50)) { v.p = NULL; break; } v.p = gutil_objv_new(NULL, NULL); CHECK(v.p, "no vector"); break;
        case 1: v.p = gutil_objv_new(o[0]->o, NULL); break;
        case 2: v.p = gutil_objv_new(o[0]->o, o[1]->o, NULL); break;
        case 3: v.p = gutil_objv_new(o[0]->o, o[1]->o, o[2]->o, NULL); break;
        case 4: v.p = gutil_objv_new(o[0]->o, o[1]->o, o[2]->o, o[3]->o, NULL); break;
        case 5: v.p = gutil_objv_new(o[0]->o, o[1]->o, o[2]->o, o[3]->o, o[4]->o, NULL); break;
        }
        if (big && vecs.empty()) {
            const size_t k = vh_big_size(r);
            std::vector<Obj*> some;
            for (int i = 0; i < 200; i++) some.push_back(fresh());
            v.p = g_renew(GObject*, v.p, k + 1);
            while (v.v.size() < k) { Obj* x = r.pick(some); v.p[v.v.size()] = (GObject*)g_object_ref(x->o); v.v.push_back(x); }
            v.p[k] = NULL;
            CNT("large");
        }
        if (mid && vecs.empty()) for (size_t k = r.near_round(1100); v.v.size() < k; ) { Obj* x = any(); v.p = gutil_objv_add(v.p, x->o); v.v.push_back(x); }
        vecs.push_back(v);
        check(vecs.back(), "new");
        CNT("new");
    }
    void step() {
        vecs.reserve(16);
        if (vecs.empty() || (vecs.size() < 4 && r.pct(5))) { new_vec(); return; }
        const size_t vi = r.below(vecs.size());
        Vec& v = vecs[vi];
        const size_t n = v.v.size();
        const char* op = "";
        switch (r.below(17)) {
        case 0: case 1: { op = "add"; if (n > 60 && !big && !mid) break; Obj* o = any(); vh_op("add %d to %u", o->id, (unsigned)vi); v.p = gutil_objv_add(v.p, o->o); v.v.push_back(o); CNT("add"); break; }
        case 2: case 3: { op = "insert"; if (n > 60 && !big && !mid) break; Obj* o = any(); const gsize pos = wild(n); vh_op("insert %d at %lu of %u", o->id, (unsigned long)pos, (unsigned)n); v.p = gutil_objv_insert(v.p, o->o, pos); v.v.insert(v.v.begin() + MIN(pos, n), o); CNT("insert"); if (pos > n) CNT("insert_beyond"); break; }
        case 4: { op = "append"; if (n > 40 && !big && !mid) break; size_t k = r.below(vecs.size()); if (k == vi) break; Vec& w = vecs[k]; vh_op("append %u to %u", (unsigned)w.v.size(), (unsigned)n); v.p = gutil_objv_append(v.p, w.p); v.v.insert(v.v.end(), w.v.begin(), w.v.end()); CNT("append"); break; }
        case 5: case 6: { op = "remove"; Obj* o = in(v); const bool all = r.pct(50); vh_op("remove %d all=%d of %u", o->id, all, (unsigned)std::count(v.v.begin(), v.v.end(), o));
            GObject* g = o->o;
            const size_t k = std::count(v.v.begin(), v.v.end(), o);
            v.p = gutil_objv_remove(v.p, g, r.truth(all));
            if (all) v.v.erase(std::remove(v.v.begin(), v.v.end(), o), v.v.end());
            else if (k) v.v.erase(std::find(v.v.begin(), v.v.end(), o));
            if (k > 1) { if (all) CNT("remove_all_several"); else CNT("remove_first_of_several"); } else if (k) CNT("removed"); else CNT("nothing_to_remove");
            break; }
        case 7: case 8: { op = "remove_at"; const gsize pos = wild(n); vh_op("remove at %lu of %u", (unsigned long)pos, (unsigned)n); v.p = gutil_objv_remove_at(v.p, pos); if (pos < n) { v.v.erase(v.v.begin() + pos); CNT("removed_at"); } else CNT("out_of_range"); break; }
        case 9: case 10: case 11: { op = "query";
            Obj* o = in(v);
            const auto f = std::find(v.v.begin(), v.v.end(), o);
            gssize first = f == v.v.end() ? -1 : f - v.v.begin(), last = -1;
            for (size_t i = 0; i < n; i++) if (v.v[i] == o) last = (gssize)i;
            CHECK_EQ(gutil_objv_find(v.p, o->o), first, "find");
            CHECK_EQ(gutil_objv_find_last(v.p, o->o), last, "find_last");
            CHECK_EQ(gutil_objv_contains(v.p, o->o) ? 1 : 0, first >= 0 ? 1 : 0, "contains");
            CHECK(gutil_objv_first(v.p) == (n ? v.v[0]->o : NULL), "first");
            CHECK(gutil_objv_last(v.p) == (n ? v.v[n - 1]->o : NULL), "last");
            const gsize pos = wild(n);
            CHECK(gutil_objv_at(v.p, pos) == (pos < n ? v.v[pos]->o : NULL), "at %lu of %u", (unsigned long)pos, (unsigned)n);
            CHECK_EQ(gutil_objv_find(v.p, NULL), (gssize)-1, "find NULL"); CHECK_EQ(gutil_objv_find_last(v.p, NULL), (gssize)-1, "find NULL"); CHECK(!gutil_objv_contains(v.p, NULL), "contains NULL");
            CHECK_EQ(gutil_ptrv_length(v.p), (gsize)n, "length");
            vh_mix(first); vh_mix(last);
            if (first >= 0) CNT("found"); else CNT("not_found");
            if (last > first) CNT("found_several");
            break; }
        case 12: { op = "equal"; Vec& w = r.pick(vecs); const bool eq = v.v == w.v; vh_op("equal %u %u: %d", (unsigned)n, (unsigned)w.v.size(), eq);
            CHECK_EQ(gutil_objv_equal(v.p, w.p) ? 1 : 0, eq ? 1 : 0, "equal"); CHECK_EQ(gutil_objv_equal(w.p, v.p) ? 1 : 0, eq ? 1 : 0, "equal");
            CHECK_EQ(gutil_objv_equal(v.p, NULL) ? 1 : 0, n ? 0 : 1, "equal to NULL");
            if (eq && &v != &w) CNT("equal_vectors"); if (!eq) CNT("different_vectors"); break; }
        case 13: { op = "copy"; if (vecs.size() > 4) break; Vec w; w.p = gutil_objv_copy(v.p); w.v = v.v; vh_op("copy %u", (unsigned)n);
            CHECK((w.p != NULL) == (v.p != NULL) && (!w.p || w.p != v.p), "copy"); 
            vecs.push_back(w); check(vecs.back(), "copy"); CNT("copy");
            if (r.pct(40) && n) { Vec& x = vecs.back(); const gsize pos = r.below(n); x.p = gutil_objv_remove_at(x.p, pos); x.v.erase(x.v.begin() + pos); } break; }
        case 14: { op = "add NULL"; GObject** p = v.p; vh_op("nothing"); v.p = r.pct(30) ? gutil_objv_add(v.p, NULL) : r.pct(50) ? gutil_objv_insert(v.p, NULL, wild(n)) : r.pct(50) ? gutil_objv_append(v.p, NULL) : gutil_objv_remove(v.p, NULL, r.truth(r.pct(50))); CHECK(n == 0 || v.p == p, "vector has changed"); CNT("null_object"); break; }
        case 15: { Obj* o = any(); if (o->ours > 0 && r.pct(50)) { vh_op("drop %d", o->id); o->ours--; g_object_unref(o->o); } else { g_object_ref(o->o); o->ours++; } op = "reference"; break; }
        case 16: op = "free"; if (r.pct(25)) { free_vec(vi); return; } break;
        }
        for (Vec& x : vecs) check(x, op);
        check_refs(op);
        if (v.v.size() > 1) vh_nontrivial();
    }
    void run() {
        for (int n = big ? 20 : mid ? 40 : 20 + (int)r.below(120); n; n--) step();
        for (Vec& v : vecs) for (Obj* o : v.v) vh_mix(o->id);
        // Ours are dropped first quite often
        if (r.pct(50)) drop();
        while (vecs.size()) free_vec(r.below(vecs.size()));
        drop();
        for (Obj* o : objs) CHECK(o->gone, "object %d is still there", o->id);
        CNTN("objects", objs.size());
    }
    void drop() { for (Obj* o : objs) while (o->ours > 0) { o->ours--; g_object_unref(o->o); check_refs("drop"); } }
};
void c25(Case& c) { ObjCase x(c); x.run(); }
VH_PROP(C25, c25);
}
