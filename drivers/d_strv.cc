// C26, C27: string vectors
#include "../harness/vh.h"
extern "C" {
#include "gutil_strv.h"
}
namespace {
typedef std::string S;
struct Vec { GStrV* p; std::vector<S> v; };
struct StrCase {
    Case& c; Rng& r; int alphabet;
    std::vector<Vec> vecs; std::vector<S> known;
    StrCase(Case& c_) : c(c_), r(c_.r) { alphabet = (int)r.below(4); big = vh_big(c, 2003); mid = !big && c.idx % 61 == 11; }
    bool big, mid;
    S str() {
        S s;
        size_t n = alphabet == 0 ? r.below(3) : r.pct(95) ? r.below(8) : r.size(500);
        for (; n; n--) s += alphabet == 0 ? (char)('a' + r.below(2)) : alphabet == 1 ? (char)(r.pct(50) ? 'a' : 0xff - r.below(3)) : (char)(1 + r.below(255));
        return s;
    }
    S in(Vec& v) { return v.v.size() && r.pct(70) ? r.pick(v.v) : str(); }
    void check(Vec& v, const char* op) {
        if (v.v.size()) CHECK(v.p, "%s: vector is NULL", op);
        if (!v.p) return;
        for (size_t i = 0; i < v.v.size(); i++) CHECK(v.p[i] && v.v[i] == v.p[i], "%s: element %u of %u is %s expected %s", op, (unsigned)i, (unsigned)v.v.size(), vh_quote(v.p[i]).c_str(), vh_quote(v.v[i].c_str()).c_str());
        CHECK(!v.p[v.v.size()], "%s: not terminated", op);
    }
    void new_vec() {
        Vec v; v.p = NULL;
        vh_op("new");
        if (r.pct(30)) v.p = (char**)g_malloc0(sizeof(char*));
        vecs.push_back(v);
    }
    int wild(size_t n) {
        switch (r.below(8)) {
        case 0: return (int)(n + r.below(3));
        case 1: return INT_MAX - (int)r.below(3);
        case 2: return -1 - (int)r.below(3);
        case 3: return INT_MIN + (int)r.below(3);
        default: return (int)r.below(n + 1);
        }
    }
    // Sometimes it's the string from the vector itself
    const char* arg(Vec& v, const S& s, Exact& e) {
        if (v.p && r.pct(35)) for (size_t i = 0; i < v.v.size(); i++) if (v.v[i] == s && (r.pct(50) || i + 1 == v.v.size())) { CNT("own_string"); return v.p[i]; }
        return (char*)e.p;
    }
    static S z(const S& s) { return S(s.c_str(), s.size() + 1); }
    void edit(size_t vi) {
        Vec& v = vecs[vi];
        const size_t n = v.v.size();
        switch (r.below(12)) {
        case 0: case 1: case 2: { if (n > 80 && !big && !mid) break; const S s = in(v); Exact e(z(s)); vh_op("add %s", vh_quote(s.c_str()).c_str()); v.p = gutil_strv_add(v.p, arg(v, s, e)); v.v.push_back(s); memset(e.p, 'x', s.size()); CNT("add"); break; }
        case 3: case 4: { if (n > 80 && !big && !mid) break; S s[12]; const int k = r.pct(5) ? 12 : 1 + (int)r.below(4); for (int i = 0; i < k; i++) s[i] = in(v);
            Exact e0(z(s[0])), e1(z(s[1])), e2(z(s[2])), e3(z(s[3]));
            const char* a[4] = { arg(v, s[0], e0), arg(v, s[1], e1), arg(v, s[2], e2), arg(v, s[3], e3) };
            if (k == 12 && r.pct(20)) {
                const char* many[300];
                for (int i = 0; i < 300; i++) { const int j = (int)r.below(4); many[i] = (char*)(j == 0 ? &e0 : j == 1 ? &e1 : j == 2 ? &e2 : &e3)->p; v.v.push_back(s[j]); }
                vh_op("addv 300");
                v.p = vh_call_n<300>([&](auto... x) { return gutil_strv_addv(v.p, x...); }, many);
                CNT("addv_300"); break;
            }
            if (k == 12) {
                Exact e4(z(s[4])), e5(z(s[5])), e6(z(s[6])), e7(z(s[7])), e8(z(s[8])), e9(z(s[9])), e10(z(s[10])), e11(z(s[11]));
                vh_op("addv 12");
                v.p = gutil_strv_addv(v.p, a[0], a[1], a[2], a[3], (char*)e4.p, (char*)e5.p, (char*)e6.p, (char*)e7.p, (char*)e8.p, (char*)e9.p, (char*)e10.p, (char*)e11.p, NULL);
                for (int i = 0; i < k; i++) v.v.push_back(s[i]);
                CNT("addv_many"); break;
            }
            vh_op("addv %d", k); for (int i = 0; i < k; i++) vh_key(std::hash<S>()(s[i]));
            switch (k) {
            case 1: v.p = gutil_strv_addv(v.p, a[0], NULL); break;
            case 2: v.p = gutil_strv_addv(v.p, a[0], a[1], NULL); break;
            case 3: v.p = gutil_strv_addv(v.p, a[0], a[1], a[2], NULL); break;
            case 4: v.p = gutil_strv_addv(v.p, a[0], a[1], a[2], a[3], NULL); break;
            }
            for (int i = 0; i < k; i++) v.v.push_back(s[i]);
            CNT("addv"); break; }
        case 5: case 6: { const int pos = wild(n); const bool f = r.pct(60); const bool hit = pos >= 0 && (size_t)pos < n; vh_op("remove_at %d of %u free=%d", pos, (unsigned)n, f);
            char* keep = hit && !f ? v.p[pos] : NULL;
            v.p = gutil_strv_remove_at(v.p, pos, r.truth(f));
            if (hit) {
                if (keep) { CHECK(v.v[pos] == keep, "removed string has changed"); g_free(keep); CNT("kept"); }
                v.v.erase(v.v.begin() + pos);
                CNT("removed_at");
            } else CNT("out_of_range");
            break; }
        case 7: case 8: { S s = in(v); if (big) while (std::count(v.v.begin(), v.v.end(), s) > 300) s += "a"; Exact e(z(s)); const bool all = r.pct(50); const size_t k = std::count(v.v.begin(), v.v.end(), s); vh_op("remove %s all=%d of %u", vh_quote(s.c_str()).c_str(), all, (unsigned)k);
            const char* a = arg(v, s, e);
            v.p = r.pct(50) ? gutil_strv_remove(v.p, a, r.truth(all)) : all ? gutil_strv_remove_all(v.p, a) : gutil_strv_remove_one(v.p, a);
            if (all) v.v.erase(std::remove(v.v.begin(), v.v.end(), s), v.v.end()); else if (k) v.v.erase(std::find(v.v.begin(), v.v.end(), s));
            if (k > 1) { if (all) CNT("remove_all_several"); else CNT("remove_first_of_several"); } else if (k) CNT("removed"); else CNT("nothing_to_remove");
            break; }
        case 9: { GStrV* p = v.p; vh_op("nothing"); v.p = r.pct(30) ? gutil_strv_add(v.p, NULL) : r.pct(50) ? gutil_strv_addv(v.p, NULL, NULL) : gutil_strv_remove(v.p, NULL, r.truth(r.pct(50))); CHECK(!n || v.p == p, "vector has changed"); CNT("null_string"); break; }
        case 10: case 11: if (vecs.size() < 4 && r.pct(50)) {     // a similar one
            Vec w; w.v = v.v; w.p = v.p ? g_strdupv(v.p) : NULL;
            if (n && r.pct(60)) { const size_t i = r.below(n); S s = w.v[i]; switch (r.below(3)) { case 0: s += "a"; break; case 1: if (s.size()) s.back()++; break; case 2: s = str(); break; } if (s.find('\0') == S::npos) { g_free(w.p[i]); w.p[i] = g_strdup(s.c_str()); w.v[i] = s; } }
            vecs.push_back(w); vh_op("similar"); } break;
        }
    }
    void query(size_t vi) {
        Vec& v = vecs[vi];
        const size_t n = v.v.size();
        const S s = in(v);
        Exact e(z(s));
        const char* a = arg(v, s, e);
        int first = -1, last = -1;
        for (size_t i = 0; i < n; i++) if (v.v[i] == s) { if (first < 0) first = (int)i; last = (int)i; }
        CHECK_EQ(gutil_strv_length(v.p), (guint)n, "length");
        CHECK_EQ(gutil_strv_find(v.p, a), first, "find");
        CHECK_EQ(gutil_strv_find_last(v.p, a), last, "find_last");
        CHECK_EQ(gutil_strv_contains(v.p, a) ? 1 : 0, first >= 0 ? 1 : 0, "contains");
        const guint pos = (guint)wild(n);
        const char* at = gutil_strv_at(v.p, pos);
        CHECK(pos < n ? at == v.p[pos] : !at, "at %u of %u", pos, (unsigned)n);
        const char* l = gutil_strv_last(v.p);
        CHECK(n ? l == v.p[n - 1] : !l, "last");
        CHECK_EQ(gutil_strv_find(v.p, NULL), -1, "find NULL"); CHECK_EQ(gutil_strv_find_last(v.p, NULL), -1, "find NULL"); CHECK(!gutil_strv_contains(v.p, NULL), "contains NULL");
        Vec& w = r.pick(vecs);
        const bool eq = v.v == w.v;
        CHECK_EQ(gutil_strv_equal(v.p, w.p) ? 1 : 0, eq ? 1 : 0, "equal"); CHECK_EQ(gutil_strv_equal(w.p, v.p) ? 1 : 0, eq ? 1 : 0, "equal");
        CHECK_EQ(gutil_strv_equal(v.p, NULL) ? 1 : 0, n ? 0 : 1, "equal to NULL"); CHECK_EQ(gutil_strv_equal(NULL, v.p) ? 1 : 0, n ? 0 : 1, "equal to NULL");
        if (eq && &v != &w) CNT("equal_vectors"); if (!eq) CNT("different_vectors");
        if (first >= 0) CNT("found"); else CNT("not_found");
        if (last > first) CNT("found_several");
        vh_mix(first); vh_mix(last); vh_mix(eq);
    }
    static bool asc(const S& a, const S& b) { return strcmp(a.c_str(), b.c_str()) < 0; }
    static bool desc(const S& a, const S& b) { return strcmp(a.c_str(), b.c_str()) > 0; }
    void sorting(size_t vi) {
        Vec& v = vecs[vi];
        const size_t n = v.v.size();
        switch (r.below(4)) {
        case 0: case 1: {
            const bool up = r.pct(50);
            vh_op("sort %u %d", (unsigned)n, up);
            std::vector<char*> before(v.p, v.p + n);
            GStrV* p = gutil_strv_sort(v.p, r.truth(up));
            CHECK(p == v.p, "sort: pointer has changed");
            std::stable_sort(v.v.begin(), v.v.end(), up ? asc : desc);
            check(v, "sort");
            std::vector<char*> after(v.p, v.p + n);
            std::sort(before.begin(), before.end()); std::sort(after.begin(), after.end());
            CHECK(before == after, "sort: not a permutation");
            CNT("sort");
            for (int k = 0; k < 6; k++) {
                S s = in(v);
                if (r.pct(30) && s.size()) { if (r.pct(50)) s.pop_back(); else s.back()++; if (s.find('\0') != S::npos) s = "q"; }
                Exact e(z(s));
                const int i = gutil_strv_bsearch(v.p, arg(v, s, e), r.truth(up));
                const bool has = std::find(v.v.begin(), v.v.end(), s) != v.v.end();
                if (has) { CHECK(i >= 0 && (size_t)i < n && v.v[i] == s, "bsearch: %s is found at %d of %u", vh_quote(s.c_str()).c_str(), i, (unsigned)n); CNT("bsearch_found"); }
                else { CHECK_EQ(i, -1, "bsearch"); CNT("bsearch_not_found"); }
                vh_mix(has);
            }
            CHECK_EQ(gutil_strv_bsearch(v.p, NULL, up), -1, "bsearch NULL");
            break; }
        case 2: {
            if (big) break;     // too slow
            std::vector<S> u;
            for (const S& s : v.v) if (std::find(u.begin(), u.end(), s) == u.end()) u.push_back(s);
            vh_op("remove_dups %u => %u", (unsigned)n, (unsigned)u.size());
            if (u.size() < n) CNT("duplicates_removed");
            std::vector<char*> firsts;
            for (const S& s : u) firsts.push_back(v.p[std::find(v.v.begin(), v.v.end(), s) - v.v.begin()]);
            v.p = gutil_strv_remove_dups(v.p);
            v.v = u;
            check(v, "remove_dups");
            for (size_t i = 0; i < u.size(); i++) CHECK(v.p[i] == firsts[i], "remove_dups: it's not the first occurrence which is left");
            CNT("remove_dups");
            break; }
        case 3: {
            static const char ws[] = " \t\n\r\f";
            // Decorate some of them
            for (size_t i = 0; i < n; i++) {
                S s = v.v[i];
                for (size_t k; (k = s.find('\v')) != S::npos; ) s[k] = 'v';
                if (r.pct(60)) { for (size_t k = r.below(4); k; k--) s = ws[r.below(5)] + s; for (size_t k = r.below(4); k; k--) s += ws[r.below(5)]; if (r.pct(30)) s = S(1, ws[r.below(5)]) + s + " x"; }
                g_free(v.p[i]);
                v.p[i] = g_strdup(s.c_str());
                size_t b = 0, e = s.size();
                while (b < e && strchr(ws, s[b])) b++;
                while (e > b && strchr(ws, s[e - 1])) e--;
                if (e - b < s.size()) CNT("stripped");
                if (e == b && s.size()) CNT("stripped_blank");
                v.v[i] = s.substr(b, e - b);
            }
            vh_op("strip %u", (unsigned)n);
            CHECK(gutil_strv_strip(v.p) == v.p, "strip: pointer has changed");
            check(v, "strip");
            CNT("strip");
            break; }
        }
    }
    // Equal strings far away from each other
    void far_dups() {
        static const char* const d[] = { "a", "b", "ab", "" };
        const size_t k = vh_big_size(r), f = r.below(4);
        char** p = g_new(char*, k + 1);
        for (size_t i = 0; i < k; i++) p[i] = g_strdup(d[i && i + 1 < k ? (f + 1) % 4 : f]);
        p[k] = NULL;
        vh_op("duplicates %u", (unsigned)k);
        char* p0 = p[0], *p1 = p[1];
        p = gutil_strv_remove_dups(p);
        CHECK(p[0] == p0 && !strcmp(p0, d[f]) && p[1] == p1 && !strcmp(p1, d[(f + 1) % 4]) && !p[2], "remove_dups: duplicates are left");
        g_strfreev(p);
        CNT("far_duplicates");
    }
    void run(bool sort) {
        if (big && sort && vh_o3(c)) far_dups();
        new_vec();
        if (c.idx % 50 == 7 && sort && !big) for (int k = 0; k < 400; k++) { const S s = str(); vecs[0].p = gutil_strv_add(vecs[0].p, s.c_str()); vecs[0].v.push_back(s); }
        if (mid) {
            for (size_t k = r.near_round(1100); vecs[0].v.size() < k; ) { const S s = str(); vecs[0].p = gutil_strv_add(vecs[0].p, s.c_str()); vecs[0].v.push_back(s); }
            vh_op("%u strings", (unsigned)vecs[0].v.size());
        }
        if (big) {
            const size_t k = vh_big_size(r);
            g_free(vecs[0].p);
            vecs[0].p = g_new(char*, k + 1);
            for (size_t i = 0; i < k; i++) { const S s = str(); vecs[0].p[i] = g_strdup(s.c_str()); vecs[0].v.push_back(s); }
            vecs[0].p[k] = NULL;
            CNT("large");
        }
        for (int n = big ? 15 : mid ? 30 : 20 + (int)r.below(100); n; n--) {
            if (vecs.size() < 4 && r.pct(4)) new_vec();
            const size_t vi = r.below(vecs.size());
            if (sort && r.pct(30)) sorting(vi); else if (r.pct(70)) edit(vi); else query(vi);
            for (Vec& v : vecs) check(v, "after the operation");
            if (vecs[vi].v.size() > 1) vh_nontrivial();
            if (r.pct(3) && vecs.size() > 1) { g_strfreev(vecs.back().p); vecs.pop_back(); }
        }
        for (Vec& v : vecs) { for (const S& s : v.v) vh_mix_buf(s.data(), s.size()); g_strfreev(v.p); }
    }
};
void c26(Case& c) { StrCase x(c); x.run(false); }
void c27(Case& c) { StrCase x(c); x.run(true); }
VH_PROP(C26, c26);
VH_PROP(C27, c27);
}
