// C36: the shared library (built by the Makefile from a copy of the tree)
// exports everything that the public headers declare, the exported functions
// work, and the version is what the headers say. so_bind.inc is generated
// from the headers (see run.py): it redirects each of the declared functions
// and variables to what dlsym() returns for it.
#include "../harness/vh.h"
#include <dlfcn.h>
#include <unistd.h>
#include <libgen.h>
extern "C" {
#include "gutil_datapack.h"
#include "gutil_history.h"
#include "gutil_idlepool.h"
#include "gutil_idlequeue.h"
#include "gutil_inotify.h"
#include "gutil_intarray.h"
#include "gutil_ints.h"
#include "gutil_log.h"
#include "gutil_misc.h"
#include "gutil_objv.h"
#include "gutil_ring.h"
#include "gutil_strv.h"
#include "gutil_timenotify.h"
#include "gutil_types.h"
#include "gutil_version.h"
#include "gutil_weakref.h"
}
#if !GUTIL_LOG_ASSERT
extern "C" void gutil_log_assert(const GLogModule*, int, const char*, const char*, int);
#endif
struct SoSym { const char* name; void** ptr; };
struct SoVer { const char* name; u64 value; u64 v[3]; };
#include "so_bind.inc"      // so_symbols[], so_versions[]
#include "d_null.cc"

static void* so_handle;
static std::string so_file;
static int so_missing;

static void so_load()
{
    if (so_handle) return;
    const char* path = getenv("VH_SO");
    if (!path) vh_fail("harness", "no shared library");
    so_handle = dlopen(path, RTLD_NOW | RTLD_LOCAL);
    if (!so_handle) vh_fail("oracle", "the shared library cannot be loaded: %s", dlerror());
    char* r = realpath(path, NULL); so_file = r; free(r);
    for (const SoSym& s : so_symbols) *s.ptr = dlsym(so_handle, s.name);
}

static void case_symbols(Case& c)
{
    for (const SoSym& s : so_symbols) {
        vh_op("%s", s.name);
        void* p = dlsym(so_handle, s.name);
        if (!p) vh_fail("oracle", "%s is declared in the headers but not exported by the shared library", s.name);
        Dl_info di; memset(&di, 0, sizeof(di));
        CHECK(dladdr(p, &di) && di.dli_fname && strstr(di.dli_fname, "libglibutil"), "%s does not belong to the shared library", s.name);
        CNT("symbols");
    }
}

static u64 word(u64 a, u64 b, u64 c) { return (a << 24) | (b << 12) | c; }
static void case_version(Case& c)
{
    // Run time vs. compile time
    CHECK_EQ(gutil_version_major, (guint)GUTIL_VERSION_MAJOR, "major version");
    CHECK_EQ(gutil_version_minor, (guint)GUTIL_VERSION_MINOR, "minor version");
    CHECK_EQ(gutil_version_micro, (guint)GUTIL_VERSION_MICRO, "micro version");
    CHECK_EQ((u64)gutil_version(), (u64)GUTIL_VERSION, "version word");
    CHECK_EQ((u64)GUTIL_VERSION, word(GUTIL_VERSION_MAJOR, GUTIL_VERSION_MINOR, GUTIL_VERSION_MICRO), "version word");
    char buf[64];
    snprintf(buf, sizeof(buf), "%u.%u.%u", gutil_version_major, gutil_version_minor, gutil_version_micro);
    CHECK(!strcmp(buf, GUTIL_VERSION_STRING), "version string %s of the headers, %s at run time", GUTIL_VERSION_STRING, buf);
    std::string file(so_file); size_t k = file.rfind(".so.");
    CHECK(k != std::string::npos && file.substr(k + 4) == buf, "the file name of the shared library is %s and its version is %s", so_file.c_str(), buf);
    u64 prev = 0; bool current = false;
    for (const SoVer& v : so_versions) {
        CHECK_EQ(v.value, word(v.v[0], v.v[1], v.v[2]), v.name);
        CHECK(v.value > prev, "%s is not greater than the previous one", v.name);
        CHECK(v.value <= (u64)GUTIL_VERSION, "%s is newer than the current version", v.name);
        prev = v.value;
        if (v.value == (u64)GUTIL_VERSION) current = true;
        CNT("specific_versions");
    }
    CHECK(current, "no macro for the current version");
}

static void case_solib(Case& c)
{
    so_load();
    if (c.idx % 64 < 8) case_symbols(c);
    case_version(c);
    Rng& r = c.r;
    u64 last[3] = { 0, 0, 0 }; u64 lw = 0;
    for (int i = 0; i < 200; i++) {
        u64 t[3] = { r.pct(30) ? last[0] : r.pct(20) ? 127 - r.below(2) : r.below(128), r.pct(30) ? last[1] : r.pct(20) ? 4095 - r.below(2) : r.below(4096),
            r.pct(30) ? last[2] : r.pct(20) ? 4095 - r.below(2) : r.below(4096) };
        unsigned a = t[0], b = t[1], d = t[2];
        u64 w = GUTIL_VERSION_(a, b, d);
        vh_op("version %u.%u.%u", a, b, d);
        CHECK_EQ(w, word(a, b, d), "version word");
        CHECK_EQ((u64)GUTIL_VERSION_MAJOR_(w), t[0], "major of the word");
        CHECK_EQ((u64)GUTIL_VERSION_MINOR_(w), t[1], "minor of the word");
        CHECK_EQ((u64)GUTIL_VERSION_MICRO_(w), t[2], "micro of the word");
        int sw = (int)GUTIL_VERSION_((int)a, (int)b, (int)d);
        CHECK(sw >= 0 && (u64)sw == w, "version word does not fit in int");
        // Arguments which are expressions
        CHECK_EQ((u64)GUTIL_VERSION_(a & 0x70 | a & 0x0f, b & 0xf0f | b & 0x0f0, d ? d : 0), w, "version word of expressions");
        CHECK_EQ((u64)GUTIL_VERSION_MICRO_(w | 0), t[2], "micro of an expression");
        CHECK_EQ((u64)GUTIL_VERSION_MINOR_(w | 0), t[1], "minor of an expression");
        CHECK_EQ((u64)GUTIL_VERSION_MAJOR_(w | 0), t[0], "major of an expression");
        // Words compare like versions
        int cmp = t[0] != last[0] ? (t[0] < last[0] ? -1 : 1) : t[1] != last[1] ? (t[1] < last[1] ? -1 : 1) : t[2] != last[2] ? (t[2] < last[2] ? -1 : 1) : 0;
        CHECK((w < lw ? -1 : w > lw) == cmp, "words of versions compare differently");
        memcpy(last, t, sizeof(t)); lw = w;
        CNT("triplets");
    }
    for (const SoSym& s : so_symbols) CHECK(*s.ptr, "%s is not exported", s.name);
    case_null(c);
}
VH_PROP(C36, case_solib);
