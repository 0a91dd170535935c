/* The logging macros, as compiled by C code */
#define GLOG_LEVEL_MAX GLOG_LEVEL_VERBOSE
#define GLOG_MODULE_NAME vh_log_module
#include "gutil_log.h"
GLOG_MODULE_DEFINE("macro-module");
GLogModule* vh_log_macro_module(void) { return GLOG_MODULE_CURRENT; }
int vh_log_macro_enabled(int level) { return GLOG_ENABLED(level); }
int vh_log_macro(int k, const char* s, int n, const char** fn)
{
    *fn = __FUNCTION__;
    switch (k) {
    case 0: GERR("%s %d", s, n); return GLOG_LEVEL_ERR;
    case 1: GWARN("%s %d", s, n); return GLOG_LEVEL_WARN;
    case 2: GINFO("%s %d", s, n); return GLOG_LEVEL_INFO;
    case 3: GDEBUG("%s %d", s, n); return GLOG_LEVEL_DEBUG;
    case 4: GVERBOSE("%s %d", s, n); return GLOG_LEVEL_VERBOSE;
    case 5: GERR_("%s %d", s, n); return GLOG_LEVEL_ERR;
    case 6: GWARN_("%s %d", s, n); return GLOG_LEVEL_WARN;
    case 7: GINFO_("%s %d", s, n); return GLOG_LEVEL_INFO;
    case 8: GDEBUG_("%s %d", s, n); return GLOG_LEVEL_DEBUG;
    default: GVERBOSE_("%s %d", s, n); return GLOG_LEVEL_VERBOSE;
    }
}
void vh_log_macro_dump(const void* p, int n) { GDEBUG_DUMP(p, n); }
void vh_log_macro_dump_bytes(GBytes* b) { GDEBUG_DUMP_BYTES(b); }
