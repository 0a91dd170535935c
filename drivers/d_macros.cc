// C37: macros of the public headers
#include "../harness/vh.h"
extern "C" {
#include "gutil_log.h"
#include "gutil_misc.h"
#include "../harness/macros.h"
void __real_gutil_log_assert(const GLogModule* module, int level, const char* expr, const char* file, int line);
void __real_g_slice_free1(gsize size, gpointer p);
}
namespace {
const MacroUnit* const units[] = { &macro_unit_1, &macro_unit_2, &macro_unit_3, &macro_unit_4, &macro_unit_5, &macro_unit_6, &macro_unit_7, &macro_unit_8 };
struct Msg { const GLogModule* module; int level; std::string text; bool own; };
std::vector<Msg> got;
struct Assert { const GLogModule* module; int level; std::string expr, file; int line; };
std::vector<Assert> asserts;
bool slice_hook;
int slice_calls;
gsize slice_size;
gpointer slice_ptr;

void deliver(const GLogModule* m, int level, const char* f, va_list va, bool own) {
    char buf[512];
    vsnprintf(buf, sizeof(buf), f, va);
    got.push_back({ m, level, buf, own });
}
void global2(const GLogModule* m, int level, const char* f, va_list va) { deliver(m, level, f, va, false); }
void own(const GLogModule* m, int level, const char* f, va_list va) { deliver(m, level, f, va, true); }
void on_assert(const GLogModule* m, int level, const char* expr, const char* file, int line) {
    asserts.push_back({ m, level, expr, file, line });
    __real_gutil_log_assert(m, level, expr, file, line);
}

struct Globals {
    GLogModule def; GLogProc f; GLogProc2 f2;
    Globals() : def(gutil_log_default), f(gutil_log_func), f2(gutil_log_func2) {
        got.clear(); asserts.clear();
        gutil_log_func2 = global2;
        vh_assert_hook = on_assert;
    }
    static void reset(GLogModule* m) { if (m) { m->level = GLOG_LEVEL_INHERIT; m->flags = 0; m->log_proc = NULL; } }
    ~Globals() {
        vh_assert_hook = NULL; slice_hook = false;
        gutil_log_default.level = def.level; gutil_log_default.flags = def.flags; gutil_log_default.log_proc = def.log_proc;
        gutil_log_func = f; gutil_log_func2 = f2;
        for (const MacroUnit* u : units) { reset(u->module); reset(u->parent); }
        std::vector<Msg>().swap(got); std::vector<Assert>().swap(asserts);
    }
};

bool enabled(const GLogModule* m, int level) {
    if (!m) m = &gutil_log_default;
    for (;;) {
        if (m->flags & GLOG_FLAG_DISABLE) return false;
        if (m->level != GLOG_LEVEL_INHERIT || !m->parent) break;
        m = m->parent;
    }
    const int max = m->level == GLOG_LEVEL_INHERIT ? gutil_log_default.level : m->level;
    return level == GLOG_LEVEL_ALWAYS || (level > 0 && level <= max);
}

struct Macros {
    Case& c; Rng& r;
    const MacroUnit* u;
    Macros(Case& c) : c(c), r(c.r) {}

    void mutate(GLogModule* m) {
        if (!m) return;
        switch (r.below(4)) {
        case 0: case 1: m->level = (int)r.range(m == &gutil_log_default ? 0 : -1, 5); break;
        case 2: m->flags = r.pct(30) ? GLOG_FLAG_DISABLE : r.pct(30) ? GLOG_FLAG_HIDE_NAME : 0; break;
        case 3: m->log_proc = r.pct(50) ? own : NULL; break;
        }
    }
    void expect(bool compiled, int level, const std::string& text, const char* what, int k) {
        const bool want = compiled && enabled(u->module, level);
        const GLogModule* m = u->module ? u->module : &gutil_log_default;
        CHECK_EQ(got.size(), (size_t)(want ? 1 : 0), what);
        if (want) {
            CHECK(got[0].module == m, "%s %d of %s: wrong module", what, k, u->name);
            CHECK_EQ(got[0].level, level, what);
            CHECK(got[0].text == text, "%s %d of %s: text is %s, expected %s", what, k, u->name, vh_quote(got[0].text.c_str()).c_str(), vh_quote(text.c_str()).c_str());
            CHECK_EQ(got[0].own ? 1 : 0, m->log_proc ? 1 : 0, "back end");
            CNT("delivered");
        } else if (compiled) CNT("not_delivered");
        else CNT("not_compiled_in");
        vh_mix(want);
        got.clear();
    }
    MacroEval eval() {
        MacroEval e; memset(&e, 0, sizeof(e));
        e.cond = r.pct(85); e.ones = -1; e.cmp = r.range(-2, 2);
        return e;
    }
    void taken(const MacroEval& e, int n, const char* what, int k) {
        if (!e.cond) CNT("not_taken");
        CHECK(e.other == !e.cond, "%s %d of %s: the other branch was run %d times", what, k, u->name, e.other);
        CHECK(e.args == (e.cond ? n : 0), "%s %d of %s: arguments were evaluated %d times, expected %d", what, k, u->name, e.args, e.cond ? n : 0);
    }
    void log() {
        const int k = (int)r.below(30), n = r.int32();
        std::string s; for (int i = (int)r.below(20); i > 0; i--) s += (char)r.range(32, 126);
        const int level = k % 15 / 3 + 1;
        const int form = k % 3;
        MacroEval e = eval();
        const bool compiled = e.cond && level <= u->level_max;
        vh_op("%s log %d taken %d", u->name, k, e.cond);
        CHECK_EQ(u->log(k, &e, s.c_str(), n), level, "level of the macro");
        static const int nargs[] = { 2, 0, 1 };
        taken(e, compiled ? nargs[form] : 0, "log macro", k);
        std::string text = k >= 15 ? std::string(e.fn) + "() " : "";
        const std::string num = std::to_string(n);
        text += form == 0 ? s + " " + num : form == 1 ? "nothing" : num + "%";
        expect(compiled, level, text, "log macro", k);
    }
    void dump() {
        MacroEval e = eval();
        const int k = (int)r.below(2);
        const bool compiled = e.cond && u->level_max >= GLOG_LEVEL_DEBUG;
        u8 data[40]; const gsize n = r.below(sizeof(data)); for (u8& b : data) b = (u8)r.next();
        Exact x(data, n);
        GBytes* b = g_bytes_new(x.p, n);
        vh_op("%s dump %d %d bytes taken %d", u->name, k, (int)n, e.cond);
        CHECK_EQ(u->dump(k, &e, x.p, n, b), k ? 1 : 2, "dump");
        g_bytes_unref(b);
        taken(e, compiled ? (k ? 1 : 2) : 0, "dump macro", k);
        const bool want = compiled && enabled(u->module, GLOG_LEVEL_DEBUG);
        CHECK_EQ(got.size(), want ? (n + 15) / 16 : 0, "lines of a dump");
        gsize off = 0;
        for (Msg& m : got) {
            char buf[GUTIL_HEXDUMP_BUFSIZE];
            gutil_hexdump(buf, x.p + off, MIN(n - off, 16));
            CHECK_EQ(m.level, GLOG_LEVEL_DEBUG, "level of a dump");
            CHECK(m.module == (u->module ? u->module : &gutil_log_default), "module of a dump");
            std::string t = m.text; while (t.size() && t.back() == ' ') t.pop_back();
            char pos[16]; snprintf(pos, sizeof(pos), "%04X: ", (int)off);
            std::string w = std::string(pos) + buf; while (w.size() && w.back() == ' ') w.pop_back();
            CHECK(t == w, "dump is %s, expected %s", vh_quote(t.c_str()).c_str(), vh_quote(buf).c_str());
            off += 16;
        }
        got.clear();
        vh_mix(want);
        CNT("dumps");
    }
    void verify() {
        MacroEval e = eval();
        const int k = (int)r.below(12);
        const i64 a = r.pct(70) ? r.range(-2, 2) : (i64)r.bits64(), b = r.pct(30) ? a : r.pct(70) ? r.range(-2, 2) : (i64)r.bits64();
        bool ok;
        switch (k) {
        case 0: case 1: case 2: case 3: ok = a; break;
        case 4: ok = !a; break;
        case 5: ok = a != e.cmp; break;
        case 6: ok = a == b; break;
        case 7: ok = a != b; break;
        case 8: ok = a >= b; break;
        case 9: ok = a > b; break;
        case 10: ok = a <= b; break;
        default: ok = a < b; break;
        }
        vh_op("%s verify %d taken %d a %lld b %lld", u->name, k, e.cond, (long long)a, (long long)b);
        const int nv = u->verify(k, &e, a, b);
        CHECK(e.other == !e.cond, "assert %d of %s: the other branch was run %d times", k, u->name, e.other);
        // GASSERT goes away completely, GVERIFY doesn't
        const int want = !e.cond ? 0 : k < 2 ? u->asserts : 1;
        CHECK(e.exprs == want, "assert %d of %s: the expression was evaluated %d times, expected %d", k, u->name, e.exprs, want);
        if (u->asserts || !e.cond) CHECK(e.vals == (e.cond ? nv : 0), "assert %d of %s: the value was evaluated %d times", k, u->name, e.vals);
        else CHECK(e.vals <= 1, "assert %d of %s: the value was evaluated %d times", k, u->name, e.vals);
        const bool fails = u->asserts && e.cond && !ok;
        CHECK(asserts.size() == (fails ? 1 : 0), "assert %d of %s: %d failures were reported, expected %d (%lld, %lld)", k, u->name, (int)asserts.size(), fails, (long long)a, (long long)b);
        std::string text;
        if (fails) {
            const Assert& x = asserts[0];
            CHECK(x.module == u->module, "assert %d of %s: wrong module", k, u->name);
            CHECK_EQ(x.level, u->assert_level, "level of an assert");
            CHECK(x.file == u->file && x.line == e.line, "assert %d of %s: reported at %s:%d instead of %s:%d", k, u->name, x.file.c_str(), x.line, u->file, e.line);
            if (k == 0) CHECK(x.expr == "unit_expr(e, a)", "assert %d of %s: %s", k, u->name, x.expr.c_str());
            if (k == 1) CHECK(x.expr == "e->zero || unit_expr(e, a)", "assert %d of %s: %s", k, u->name, x.expr.c_str());
            CHECK(x.expr.find("unit_expr") != std::string::npos, "assert %d of %s: %s", k, u->name, x.expr.c_str());
            text = "Assert " + x.expr + " failed at " + x.file + ":" + std::to_string(x.line);
            CNT("assert_failed");
        } else if (u->asserts) CNT("assert_passed"); else CNT("assert_not_compiled_in");
        if (k >= 2) CNT("verify");
        expect(fails, u->assert_level, text, "assert", k);
        asserts.clear();
        vh_mix(fails);
    }
    void align() {
        MacroEval e = eval();
        static const int aligns[] = { 2, 4, 8 };
        static const struct { int bits; bool sign; } types[] = { { 8, true }, { 8, false }, { 16, true }, { 16, false }, { 32, true }, { 32, false }, { 64, true }, { 64, false }, { 64, false }, { 64, false }, { 64, true } };
        const int to = aligns[r.below(3)], t = (int)r.below(11);
        i64 v = r.pct(40) ? r.range(-20, 20) : (i64)r.bits64();
        // What the type makes of it
        const int bits = types[t].bits;
        if (bits < 64) { v = (i64)((u64)v << (64 - bits)); v = types[t].sign ? v >> (64 - bits) : (i64)((u64)v >> (64 - bits)); }
        // Small types are promoted to int
        const int pbits = bits < 32 ? 32 : bits;
        const bool psign = bits < 32 || types[t].sign;
        __int128 x = types[t].sign ? (__int128)v : (__int128)(u64)v;
        __int128 want = x; while ((want & (to - 1)) != 0) want++;
        const __int128 max = psign ? ((__int128)1 << (pbits - 1)) - 1 : ((__int128)1 << pbits) - 1;
        if (x + to - 1 > max) return;
        vh_op("%s align %d type %d value %lld", u->name, to, t, (long long)v);
        e.cond = 1;
        MacroInt m = u->align(to, t, &e, v);
        CHECK(e.args == 1, "G_ALIGN%d of %s: the value was evaluated %d times", to, u->name, e.args);
        // The value has to survive
        const __int128 res = m.is_signed ? (__int128)m.value : (__int128)((u64)m.value & (m.size < 8 ? ((u64)1 << (8 * m.size)) - 1 : ~(u64)0));
        CHECK(res == want, "G_ALIGN%d(%lld) of type %d is %lld", to, (long long)v, t, (long long)m.value);
        vh_mix((u64)m.value);
        CNT("aligned");
    }
    void cast() {
        // The same layouts
        typedef struct { guint8 a; guint32 b; guint8 c; guint64 d; guint16 e[5]; } Plain;
        typedef struct { Plain base; Plain more[3]; gpointer p; } Outer;
        struct __attribute__((packed)) Packed { guint8 a; guint32 b; guint8 c; guint64 d; guint16 e[5]; };
        static Outer o[8];
        static Packed pk[4];
        MacroEval e = eval();
        const int k = (int)r.below(8);
        int back = (int)r.below(4);
        Outer* x = &o[2 + r.below(4)];
        Plain* p = &x->base;
        Packed* q = &pk[r.below(4)];
        void *from, *want;
        switch (k) {
        case 0: from = &p->a; want = p; break;
        case 1: from = &p->b; want = p; break;
        case 2: from = &p->e[3]; want = p; break;
        case 3: back = (int)r.range(-2, 2); from = &p->e[2 - back]; want = p; break;
        case 4: from = (u8*)q + 6; want = q; break;
        case 5: back = (int)r.range(-1, 1); from = &x->more[1 - back]; want = x; break;
        case 6: from = &x->base; want = &x->p; break;
        default: from = &x->more[2].c; want = x->more; break;
        }
        vh_op("%s cast %d back %d", u->name, k, back);
        void* res = u->cast(k, &e, from, back);
        CHECK(e.args == 1, "G_CAST: the address was evaluated %d times", e.args);
        CHECK(res == want, "G_CAST %d: off by %d", k, (int)((u8*)res - (u8*)want));
        CHECK_EQ(u->packed(0), (int)sizeof(Packed), "size of a packed structure");
        CHECK_EQ(u->packed(1), (int)sizeof(Plain), "size of a structure");
        CHECK_EQ(u->packed(2), 14, "offset in a packed structure");
        CHECK_EQ(u->packed(3), (int)G_STRUCT_OFFSET(Plain, e), "offset in a structure");
        CNT("cast");
    }
    void slice() {
        MacroEval e = eval();
        const int k = (int)r.below(5);
        const gsize n = macro_slice_sizes[k];
        u8* p = (u8*)g_slice_alloc(n + 0);
        memset(p, 0x5a, n);
        vh_op("%s slice %d of %d bytes taken %d", u->name, k, (int)n, e.cond);
        gpointer arg = p;
        // That one frees a part of what it's given
        if (k == 3) arg = p - macro_slice_sizes[0];
        slice_calls = 0; slice_hook = true;
        u->slice(k, &e, arg);
        slice_hook = false;
        taken(e, 1, "gutil_slice_free", k);
        CHECK_EQ(slice_calls, e.cond ? 1 : 0, "blocks freed");
        if (e.cond) {
            CHECK(slice_ptr == p, "gutil_slice_free frees another block");
            CHECK_EQ(slice_size, n, "size of the freed block");
        }
        __real_g_slice_free1(n, p);
        CNT("slice_free");
    }
    void definitions() {
        for (int i = 0; i < 6; i++) CHECK(u->defs[i] == (u->level_max >= i), "GUTIL_LOG_xxx %d of %s is %d", i, u->name, u->defs[i]);
        CHECK(u->def_assert == u->asserts, "GUTIL_LOG_ASSERT of %s is %d", u->name, u->def_assert);
        CHECK(u->current() == u->module, "GLOG_MODULE_CURRENT of %s", u->name);
        if (u->module) {
            const GLogModule* m = u->module;
            CHECK(m->name && !strcmp(m->name, u->module_name), "name of %s is %s", u->name, m->name ? m->name : "NULL");
            CHECK(m->parent == u->parent, "parent of %s", u->name);
            CHECK(!m->log_proc && !m->flags && !m->reserved2, "fields of %s", u->name);
            CHECK_EQ(m->max_level, u->level_max, "max_level");
            CHECK_EQ(m->level, GLOG_LEVEL_INHERIT, "level");
        }
        MacroEval e = eval();
        GError* err = r.pct(30) ? NULL : g_error_new_literal(g_quark_from_static_string("x"), 1, "message");
        if (err && r.pct(30)) { g_free(err->message); err->message = NULL; }
        const int i = (int)r.below(4);
        const char* msg = u->errmsg(&e, err, i);
        // NULL + 0 is harmless
        CHECK(!strcmp(msg, &(err && err->message ? "message" : "Unknown error")[i]), "GERRMSG %d of %s: %s", i, u->name, msg);
        if (err) g_error_free(err);
        CNT("definitions");
    }
    void run() {
        Globals g;
        u = units[r.below(8)];
        vh_counters[vh_counter(u->name)]++;
        definitions();
        gutil_log_default.level = (int)r.range(0, 5); gutil_log_default.flags = 0; gutil_log_default.log_proc = NULL;
        const int steps = 20 + (int)r.below(60);
        for (int i = 0; i < steps; i++) {
            while (r.pct(40)) mutate(r.pct(40) ? u->module : r.pct(40) ? u->parent : &gutil_log_default);
            switch (r.below(16)) {
            case 0: case 1: case 2: case 3: case 4: case 5: log(); break;
            case 6: dump(); break;
            case 7: case 8: case 9: case 10: verify(); break;
            case 11: case 12: align(); break;
            case 13: cast(); break;
            case 14: slice(); break;
            case 15: { MacroEval e = eval(); const int level = (int)r.range(-2, 6);
                CHECK_EQ(u->enabled(&e, level) ? 1 : 0, enabled(u->module, level) ? 1 : 0, "GLOG_ENABLED");
                CHECK_EQ(e.args, 1, "evaluations of the level"); break; }
            }
            CHECK(got.empty(), "unexpected message");
            CHECK(asserts.empty(), "unexpected assert");
        }
        vh_nontrivial();
    }
};
void c37(Case& c) { Macros m(c); m.run(); }
VH_PROP(C37, c37);
}
extern "C" void __wrap_g_slice_free1(gsize size, gpointer p) {
    if (!slice_hook) { __real_g_slice_free1(size, p); return; }
    slice_calls++; slice_size = size; slice_ptr = p;
}
