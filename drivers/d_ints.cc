// C16, C17: immutable int arrays
#include <sys/mman.h>
#include "../harness/vh.h"
extern "C" {
#include "gutil_intarray.h"
#include "gutil_ints.h"
}

namespace {
typedef std::vector<int> V;

// One way or another the data is owned by a Block which outlives all arrays
// referring to it. The free function poisons the data.
struct Block {
    int kind;               // 0 - static, 1 - custom, 2 - custom without user data of its own, 3 - taken, 4 - copied, 5 - inside of a larger heap block
    u8* mem; size_t size;   // memory to be freed, in case if it's ours
    int calls; bool expected;
};
struct Node {
    GUtilInts* p; V v; int refs; int children;
    Node* parent; Block* block; bool gone;
};
Block* no_data_block;       // whose free function gets NULL
void block_free(gpointer data) {
    Block* b = data ? (Block*)data : no_data_block;
    CHECK(b, "free function is called with NULL");
    CHECK(++b->calls == 1, "free function is called again");
    CHECK(b->expected, "free function is called too early");
    free(b->mem);
    b->mem = NULL;
    CNT("freed");
}

struct IntsCase {
    Case& c; Rng& r; int alphabet;
    std::vector<Node*> nodes; std::vector<Block*> blocks;
    IntsCase(Case& c_) : c(c_), r(c_.r) { alphabet = (int)r.below(4); big = vh_big(c, 997); no_data_block = NULL; }
    bool big;
    ~IntsCase() { for (Node* n : nodes) delete n; for (Block* b : blocks) { free(b->mem); delete b; } }

    int val() {
        switch (alphabet) {
        case 0: return (int)r.below(2);
        case 1: { static const int x[] = { INT_MIN, -1, 0, 1, 256, 65536, INT_MAX }; return x[r.below(7)]; }
        default: return r.int32();
        }
    }
    V vals() {
        V v(big && r.pct(60) ? vh_big_size(r) : r.size(c.idx % 64 ? 40 : 3000));
        if (v.size() > 32000) CNT("large");
        for (int& x : v) x = val();
        if (r.pct(30) && nodes.size()) {            // something similar to what is already there
            v = r.pick(nodes)->v;
            if (v.size()) switch (r.below(4)) {
            case 0: v.resize(r.below(v.size()) + 1); break;
            case 1: v.push_back(val()); break;
            case 2: v[r.below(v.size())] ^= 1 << r.below(32); break;
            }
        }
        return v;
    }
    void check(Node* n, const char* op) {
        if (n->refs < 1) return;    // not ours even if it's still there
        guint count = 12345;
        const int* d = gutil_ints_get_data(n->p, &count);
        CHECK_EQ(count, (guint)n->v.size(), op);
        CHECK_EQ(gutil_ints_get_count(n->p), (guint)n->v.size(), op);
        CHECK(d == gutil_ints_get_data(n->p, NULL), "%s: different data pointers", op);
        CHECK(d && !memcmp(d, n->v.data(), n->v.size() * sizeof(int)), "%s: contents have changed", op);
    }
    void check_all(const char* op) {
        for (Node* n : nodes) check(n, op);
        for (Block* b : blocks) CHECK_EQ(b->calls, b->expected ? 1 : 0, op);
    }
    Block* block(int kind) { Block* b = new Block(); b->kind = kind; b->mem = NULL; b->size = 0; b->calls = 0; b->expected = false; blocks.push_back(b); return b; }
    Node* node(GUtilInts* p, const V& v, Block* b, Node* parent) {
        Node* n = new Node();
        n->p = p; n->v = v; n->refs = 1; n->children = 0; n->parent = parent; n->block = b; n->gone = false;
        if (parent) parent->children++;
        nodes.push_back(n);
        return n;
    }
    u8* dup(const V& v) { u8* p = (u8*)malloc(v.size() ? v.size() * sizeof(int) : 1); memcpy(p, v.data(), v.size() * sizeof(int)); return p; }
    void create() {
        V v = vals();
        const guint n = (guint)v.size();
        int kind = (int)r.below(7);
        if (kind == 2 && no_data_block) kind = 1;
        vh_op("create kind=%d count=%u", kind, n);
        for (int x : v) vh_key(x);
        GUtilInts* p = NULL;
        Block* b = NULL;
        switch (kind) {
        case 0: b = block(0); b->mem = dup(v); p = gutil_ints_new_static((int*)b->mem, n); CNT("static"); break;
        case 1: b = block(1); b->mem = dup(v); p = gutil_ints_new_with_free_func((int*)b->mem, n, block_free, b); CNT("custom"); break;
        case 2: b = block(2); b->mem = dup(v); no_data_block = b; p = gutil_ints_new_with_free_func((int*)b->mem, n, block_free, NULL); CNT("custom_null_data"); break;
        case 3: {
            int* d = n ? (int*)g_malloc(n * sizeof(int)) : (int*)g_malloc(4);
            if (n) memcpy(d, v.data(), n * sizeof(int));
            p = gutil_ints_new_take(d, n);
            if (!n) { CHECK(!p, "array of nothing"); *d = 1; g_free(d); CNT("empty_not_taken"); }
            CNT("taken");
            break; }
        case 4: { int* d = (int*)dup(v); p = gutil_ints_new(d, n); for (guint i = 0; i < n; i++) d[i] = ~d[i]; free(d); CNT("copied"); break; }
        case 5: {   // g_free would free it but it's not what the data points to
            const size_t off = 1 + r.below(4);
            int* d = (int*)g_malloc((n + off) * sizeof(int));
            for (size_t i = 0; i < off; i++) d[i] = 0x5a5a5a5a;
            memcpy(d + off, v.data(), n * sizeof(int));
            p = gutil_ints_new_with_free_func(d + off, n, g_free, d);
            if (!n) g_free(d);
            CNT("inside_of_block");
            break; }
        case 6: {   // via an int array
            GUtilIntArray* a = gutil_int_array_new_from_vals(v.data(), n);
            p = gutil_int_array_free_to_ints(a);
            CNT("from_array");
            break; }
        }
        CHECK((p != NULL) == (n > 0), "creation of %u ints", n);
        if (p) node(p, v, b, NULL);
        if (b && !p) { if (b == no_data_block) no_data_block = NULL; CNT("empty_not_owned"); }
    }
    guint wild(size_t n) {
        switch (r.below(6)) {
        case 0: return G_MAXUINT - (guint)r.below(3);
        case 1: return (guint)G_MAXINT + (guint)r.below(3);
        case 2: return (guint)(n + r.below(3));
        case 3: return (guint)0 - (guint)r.below(n + 2);
        default: return (guint)r.below(n + 1);
        }
    }
    Node* alive() {
        std::vector<Node*> a;
        for (Node* n : nodes) if (n->refs > 0) a.push_back(n);
        return a.empty() ? NULL : r.pick(a);
    }
    void sub(Node* n) {
        guint off = wild(n->v.size()), cnt = wild(n->v.size());
        vh_op("sub-range %u+%u of %u", off, cnt, (unsigned)n->v.size());
        GUtilInts* p = gutil_ints_new_from_ints(n->p, off, cnt);
        V v;
        if (off < n->v.size()) v = V(n->v.begin() + off, n->v.begin() + off + std::min((size_t)cnt, n->v.size() - off));
        CHECK((p != NULL) == !v.empty(), "sub-range %u+%u of %u", off, cnt, (unsigned)n->v.size());
        if (p) { Node* k = node(p, v, NULL, n); check(k, "sub-range"); CNT("sub_range"); if (v.size() < cnt) CNT("clipped"); if (n->parent) CNT("sub_sub_range"); }
        else CNT("empty_sub_range");
    }
    // Called before the reference is released
    void drop(Node* n) {
        n->refs--;
        for (Node* k = n; k && !k->gone && !k->refs && !k->children; k = k->parent) {
            k->gone = true;
            if (k->block && k->block->kind) k->block->expected = true;
            if (k->parent) k->parent->children--;
        }
    }
    void unref(Node* n) {
        vh_op("unref refs=%d children=%d", n->refs, n->children);
        GUtilInts* p = n->p;
        drop(n);
        gutil_ints_unref(p);
        CNT("unref");
    }
    void to_data(Node* n) {
        vh_op("unref_to_data refs=%d children=%d", n->refs, n->children);
        GUtilInts* p = n->p;
        guint count = 9999;
        const V v = n->v;
        drop(n);
        const bool want = r.pct(80);
        int* d = gutil_ints_unref_to_data(p, want ? &count : NULL);
        if (want) CHECK_EQ(count, (guint)v.size(), "unref_to_data count");
        CHECK(d, "unref_to_data: no data");
        CHECK(!memcmp(d, v.data(), v.size() * sizeof(int)), "unref_to_data: wrong data");
        vh_mix_buf(d, v.size() * sizeof(int));
        // It's ours now
        for (size_t i = 0; i < v.size(); i++) d[i] = ~d[i];
        check_all("unref_to_data");
        g_free(d);
        CNT("unref_to_data");
        if (n->gone) CNT("unref_to_data_last");
    }
    static int sgn(int x) { return (x > 0) - (x < 0); }
    void relations() {
        std::vector<Node*> a;
        for (Node* n : nodes) if (n->refs > 0) a.push_back(n);
        std::vector<Node*> t;
        for (int i = 0; i < 3; i++) t.push_back(a.size() && !r.pct(8) ? r.pick(a) : NULL);
        int cmp[3][3];
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
            const GUtilInts *x = t[i] ? t[i]->p : NULL, *y = t[j] ? t[j]->p : NULL;
            const bool eq = t[i] && t[j] ? t[i]->v == t[j]->v : t[i] == t[j];
            CHECK_EQ(gutil_ints_equal(x, y), eq ? TRUE : FALSE, "equal");
            const int s = sgn(gutil_ints_compare(x, y));
            cmp[i][j] = s;
            CHECK((s == 0) == eq, "comparison is not consistent with equality");
            if (eq) CHECK_EQ(gutil_ints_hash(x), gutil_ints_hash(y), "hashes of equal arrays");
            if (!x && y) CHECK(s < 0, "NULL is not the smallest");
            if (x && !y) CHECK(s > 0, "NULL is not the smallest");
            if (x && y && t[i]->v.size() < t[j]->v.size() && std::equal(t[i]->v.begin(), t[i]->v.end(), t[j]->v.begin())) { CHECK(s < 0, "prefix does not precede the longer array"); CNT("prefixes"); }
            vh_mix(s);
            if (eq && i != j && t[i] != t[j]) CNT("equal_pairs");
            if (!eq) CNT("different_pairs");
        }
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
            CHECK(cmp[i][j] == -cmp[j][i], "comparison is not antisymmetric");
            for (int k = 0; k < 3; k++) if (cmp[i][j] <= 0 && cmp[j][k] <= 0) CHECK(cmp[i][k] <= 0, "comparison is not transitive");
        }
        CNT("relations");
    }
    void search(Node* n) {
        const int x = r.pct(70) ? r.pick(n->v) : val();
        const auto it = std::find(n->v.begin(), n->v.end(), x);
        const int exp = it == n->v.end() ? -1 : (int)(it - n->v.begin());
        CHECK_EQ(gutil_ints_find(n->p, x), exp, "find");
        CHECK_EQ(gutil_ints_contains(n->p, x), exp >= 0 ? TRUE : FALSE, "contains");
        if (exp >= 0) CNT("found"); else CNT("not_found");
    }
    void table() {      // the functions are there to be used with hash tables
        GHashTable* t = g_hash_table_new(gutil_ints_hash, gutil_ints_equal);
        std::map<V, GUtilInts*> m;
        for (Node* n : nodes) if (n->refs > 0) { g_hash_table_replace(t, n->p, n->p); m[n->v] = n->p; }
        CHECK_EQ(g_hash_table_size(t), (guint)m.size(), "hash table");
        for (Node* n : nodes) if (n->refs > 0) CHECK(g_hash_table_lookup(t, n->p) == m[n->v], "hash table lookup");
        g_hash_table_destroy(t);
        CNT("hash_tables");
    }
    void run() {
        const int steps = big ? 16 : 8 + (int)r.below(c.thorough ? 80 : 40);
        for (int i = 0; i < steps; i++) {
            Node* n = alive();
            const char* op = "";
            switch (n ? r.below(14) : 0) {
            case 0: case 1: create(); op = "create"; break;
            case 2: case 3: case 4: sub(n); op = "sub-range"; break;
            case 5: if (n->refs < 5) { vh_op("ref"); CHECK(gutil_ints_ref(n->p) == n->p, "ref"); n->refs++; CNT("ref"); } op = "ref"; break;
            case 6: case 7: unref(n); op = "unref"; break;
            case 8: case 9: to_data(n); op = "unref_to_data"; break;
            case 10: case 11: vh_op("relations"); relations(); op = "relations"; break;
            case 12: vh_op("search"); search(n); op = "search"; break;
            case 13: if (r.pct(30)) { vh_op("table"); table(); } break;
            }
            check_all(op);
        }
        while (Node* n = alive()) { if (r.pct(70)) unref(n); else to_data(n); check_all("cleanup"); }
        for (Block* b : blocks) if (b->kind == 0) CHECK(b->mem, "static data is gone");
        if (nodes.size() > 1) vh_nontrivial();
    }
};
// More than 2^31 values
void huge(Case& c)
{
    Rng& r = c.r;
    static int* h;
    const guint n = 0x80000000u + 16, q = 0x40000000u + 4;
    if (!h) {
        h = (int*)mmap(NULL, n * sizeof(int), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (h == MAP_FAILED) { h = NULL; return; }
        h[100] = 5;
        h[0x7ffffffe] = 7;
    }
    vh_op("%u values", n);
    GUtilInts* a = gutil_ints_new_static(h, n);
    guint k = 0;
    CHECK_EQ(gutil_ints_get_count(a), n, "count");
    CHECK(gutil_ints_get_data(a, &k) == h && k == n, "data and count %u", k);
    for (int i = 0; i < 4; i++) {
        const guint off = i == 0 ? 0x80000000u + (guint)r.below(20) : i == 1 ? (guint)r.below(n) : (guint)r.below(8), cnt = i == 2 ? 0x80000000u + (guint)r.below(20) : (guint)r.next();
        const guint exp = off < n ? MIN(cnt, n - off) : 0;
        GUtilInts* s = gutil_ints_new_from_ints(a, off, cnt);
        vh_op("sub-range %u+%u", off, cnt);
        CHECK((s != NULL) == (exp > 0), "sub-range");
        if (s) { k = 0; CHECK(gutil_ints_get_data(s, &k) == h + off && k == exp, "sub-range of %u expected %u", k, exp); CHECK_EQ(gutil_ints_get_count(s), exp, "count"); }
        gutil_ints_unref(s);
    }
    CHECK_EQ(gutil_ints_find(a, 5), 100, "find");
    CHECK(gutil_ints_contains(a, 5), "contains");
    vh_heartbeat();
    if (r.pct(50)) CHECK_EQ(gutil_ints_find(a, 7), 0x7ffffffe, "find");
    else CHECK(gutil_ints_contains(a, 7), "contains");
    // These have the same beginnings
    GUtilInts* x = gutil_ints_new_static(h, q), *y = gutil_ints_new_static(h + 1, q), *z = gutil_ints_new_static(h, 4);
    CHECK(!gutil_ints_equal(x, y) && !gutil_ints_equal(y, x) && !gutil_ints_equal(x, z) && !gutil_ints_equal(a, x), "different ones are equal");
    const int xy = gutil_ints_compare(x, y), yx = gutil_ints_compare(y, x);
    CHECK(xy && yx && (xy < 0) == (yx > 0), "compare %d and %d", xy, yx);
    CHECK(gutil_ints_compare(z, a) < 0 && gutil_ints_compare(a, z) > 0, "prefix");
    gutil_ints_unref(a); gutil_ints_unref(x); gutil_ints_unref(y); gutil_ints_unref(z);
    CNT("huge");
}
// Each array is a sub-range of the one before, which isn't kept
void chain(Case& c)
{
    Rng& r = c.r;
    const guint n = 1500000 + (guint)r.below(1000);
    int* d = (int*)g_malloc(n * sizeof(int));
    for (guint i = 0; i < n; i++) d[i] = (int)(i * 7);
    const bool taken = r.pct(50);
    GUtilInts* a = taken ? gutil_ints_new_take(d, n) : gutil_ints_new_static(d, n);
    vh_op("chain of %u", n);
    for (guint i = 1, k = 0; i < n; i++) {
        GUtilInts* s = gutil_ints_new_from_ints(a, 1, n);
        gutil_ints_unref(a);
        a = s;
        CHECK(gutil_ints_get_data(a, &k) == d + i && k == n - i && d[i] == (int)(i * 7), "wrong sub-range at %u", i);
    }
    vh_heartbeat();
    gutil_ints_unref(a);
    if (!taken) g_free(d);
    CNT("long_chain");
}
void ints_case(Case& c) { if (vh_big(c, 15013)) chain(c); if (vh_big(c, 30011) && vh_o3(c)) huge(c); IntsCase ic(c); ic.run(); }
VH_PROP(C16, ints_case);
VH_PROP(C17, ints_case);
}
