/* Uses every macro of the public headers in the configuration of the file
 * which includes it (UNIT, and whatever gutil_log.h can be configured with) */
#include "macros.h"
#include "gutil_log.h"
#include "gutil_macros.h"
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define UNIT_FILE __FILE__
#define STR_(x) #x
#define STR(x) STR_(x)

#ifdef UNIT_PARENT
GLogModule CAT(macro_parent_, UNIT) = { "parent" STR(UNIT), NULL, NULL, GLOG_LEVEL_VERBOSE, GLOG_LEVEL_INHERIT, 0, 0 };
GLOG_MODULE_DEFINE2("unit" STR(UNIT), CAT(macro_parent_, UNIT));
#elif defined(GLOG_MODULE_NAME)
GLOG_MODULE_DEFINE("unit" STR(UNIT));
#endif

#define S (e->args++, s)
#define N (e->args++, n)
static GLogModule* unit_current(void) { return GLOG_MODULE_CURRENT; }
static int unit_enabled(MacroEval* e, int level) { return GLOG_ENABLED((e->args++, level)); }
static int unit_log(int k, MacroEval* e, const char* s, int n)
{
    e->fn = __FUNCTION__;
    /* Macros have to be statements (there is an else following) */
    switch (k) {
#define M(K,L,X) \
    case K: if (e->cond) X("%s %d", S, N); else e->other++; return L; \
    case K + 1: if (e->cond) X("nothing"); else e->other++; return L; \
    case K + 2: if (e->cond) X("%d%%", N); else e->other++; return L;
    M(0, 1, GERR) M(3, 2, GWARN) M(6, 3, GINFO) M(9, 4, GDEBUG) M(12, 5, GVERBOSE)
    M(15, 1, GERR_) M(18, 2, GWARN_) M(21, 3, GINFO_) M(24, 4, GDEBUG_) M(27, 5, GVERBOSE_)
    }
    return 0;
}
static int unit_dump(int k, MacroEval* e, const void* p, gsize n, GBytes* b)
{
    if (k) { if (e->cond) GDEBUG_DUMP_BYTES((e->args++, b)); else e->other++; return 1; }
    if (e->cond) GDEBUG_DUMP((e->args++, p), (e->args++, n)); else e->other++;
    return 2;
}
static const char* unit_errmsg(MacroEval* e, const GError* err, int i)
{
    /* What follows the macro must not become a part of it */
    const char* msg = GERRMSG(err + e->zero) + i;
    return msg;
}
/* Returns the number of values (next to the expression) */
static gint64 unit_expr(MacroEval* e, gint64 a) { e->exprs++; return a; }
static gint64 unit_val(MacroEval* e, gint64 b) { e->vals++; return b; }
static int unit_verify(int k, MacroEval* e, gint64 a, gint64 b)
{
#define A unit_expr(e, a) & e->ones
#define B unit_val(e, b) | e->zero
    switch (k) {
    case 0: e->line = __LINE__; if (e->cond) GASSERT(unit_expr(e, a)); else e->other++; return 0;
    case 1: e->line = __LINE__; if (e->cond) GASSERT(e->zero || unit_expr(e, a)); else e->other++; return 0;
    case 2: e->line = __LINE__; if (e->cond) GVERIFY(unit_expr(e, a)); else e->other++; return 0;
    case 3: e->line = __LINE__; if (e->cond) GVERIFY(e->zero || unit_expr(e, a)); else e->other++; return 0;
    case 4: e->line = __LINE__; if (e->cond) GVERIFY_FALSE(unit_expr(e, a)); else e->other++; return 0;
    case 5: e->line = __LINE__; if (e->cond) GVERIFY_FALSE(unit_expr(e, a) == e->cmp); else e->other++; return 0;
    case 6: e->line = __LINE__; if (e->cond) GVERIFY_EQ(A, B); else e->other++; return 1;
    case 7: e->line = __LINE__; if (e->cond) GVERIFY_NE(A, B); else e->other++; return 1;
    case 8: e->line = __LINE__; if (e->cond) GVERIFY_GE(A, B); else e->other++; return 1;
    case 9: e->line = __LINE__; if (e->cond) GVERIFY_GT(A, B); else e->other++; return 1;
    case 10: e->line = __LINE__; if (e->cond) GVERIFY_LE(A, B); else e->other++; return 1;
    case 11: e->line = __LINE__; if (e->cond) GVERIFY_LT(A, B); else e->other++; return 1;
    }
    return -1;
}
#define RESULT(x) ({ MacroInt r_; __typeof__(x) v_ = (x); r_.value = (gint64)v_; r_.size = sizeof(v_); r_.is_signed = ((__typeof__(x))-1 < 0); r_; })
#define ALIGNED(type) do { type x = (type)v; const type z = (type)e->zero; \
    if (to == 2) return RESULT(G_ALIGN2((e->args++, x) | z)); \
    if (to == 4) return RESULT(G_ALIGN4((e->args++, x) | z)); \
    return RESULT(G_ALIGN8((e->args++, x) | z)); } while (0)
static MacroInt unit_align(int to, int type, MacroEval* e, gint64 v)
{
    switch (type) {
    case 0: ALIGNED(gint8);
    case 1: ALIGNED(guint8);
    case 2: ALIGNED(gint16);
    case 3: ALIGNED(guint16);
    case 4: ALIGNED(gint32);
    case 5: ALIGNED(guint32);
    case 6: ALIGNED(gint64);
    case 7: ALIGNED(guint64);
    case 8: ALIGNED(gsize);
    case 9: ALIGNED(gulong);
    default: ALIGNED(glong);
    }
}
typedef struct { guint8 a; guint32 b; guint8 c; guint64 d; guint16 e[5]; } UnitPlain;
typedef struct { guint8 a; guint32 b; guint8 c; guint64 d; guint16 e[5]; } G_PACKED UnitPacked;
typedef struct { UnitPlain base; UnitPlain more[3]; gpointer p; } UnitOuter;
/* back: elements to go back by before the conversion */
static void* unit_cast(int k, MacroEval* e, void* p, int back)
{
    switch (k) {
    case 0: return G_CAST((e->args++, p), UnitPlain, a);
    case 1: { guint32* q = p; return G_CAST((e->args++, q + back) - back, UnitPlain, b); }
    case 2: { guint16* q = p; return G_CAST((e->args++, q) + back - back, UnitPlain, e[3]); }
    case 3: { guint16* q = p; return G_CAST((e->args++, q) + back, UnitPlain, e[2]); }
    case 4: { guint64* q = p; return G_CAST((e->args++, q), UnitPacked, d); }
    case 5: { const UnitPlain* q = p; return G_CAST((e->args++, q) + back, UnitOuter, more[1]); }
    case 6: { UnitPlain* q = p; return &G_CAST((e->args++, q), UnitOuter, base)->p; }
    default: { guint8* q = p; return G_CAST((e->args++, q), UnitOuter, more[2].c)->more; }
    }
}
static int unit_packed(int k)
{
    switch (k) {
    case 0: return sizeof(UnitPacked);
    case 1: return sizeof(UnitPlain);
    case 2: return G_STRUCT_OFFSET(UnitPacked, e);
    default: return G_STRUCT_OFFSET(UnitPlain, e);
    }
}
static void unit_slice(int k, MacroEval* e, void* p)
{
    switch (k) {
    case 0: { UnitPlain* q = p; if (e->cond) gutil_slice_free((e->args++, q)); else e->other++; break; }
    case 1: { UnitPacked* q = p; if (e->cond) gutil_slice_free((e->args++, q)); else e->other++; break; }
    case 2: { UnitOuter* q = p; if (e->cond) gutil_slice_free((e->args++, q + e->zero)); else e->other++; break; }
    case 3: { UnitOuter* q = p; if (e->cond) gutil_slice_free((e->args++, q->more)); else e->other++; break; }
    default: { char* q = p; if (e->cond) gutil_slice_free((e->args++, q)); else e->other++; break; }
    }
}
const MacroUnit CAT(macro_unit_, UNIT) = {
    "unit" STR(UNIT), UNIT_FILE, UNIT_MAX, UNIT_ASSERTS, UNIT_ASSERT_LEVEL,
    { GUTIL_LOG_ANY, GUTIL_LOG_ERR, GUTIL_LOG_WARN, GUTIL_LOG_INFO, GUTIL_LOG_DEBUG, GUTIL_LOG_VERBOSE }, GUTIL_LOG_ASSERT,
#ifdef GLOG_MODULE_NAME
    "unit" STR(UNIT), &GLOG_MODULE_NAME,
#else
    NULL, NULL,
#endif
#ifdef UNIT_PARENT
    &CAT(macro_parent_, UNIT),
#else
    NULL,
#endif
    unit_current, unit_log, unit_dump, unit_enabled, unit_errmsg, unit_verify, unit_align, unit_cast, unit_packed, unit_slice
};
#if UNIT == 1
const gsize macro_slice_sizes[5] = { sizeof(UnitPlain), sizeof(UnitPacked), sizeof(UnitOuter), sizeof(UnitPlain), 1 };
#endif
