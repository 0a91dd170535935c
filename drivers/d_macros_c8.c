/* C37: debug build, asserts not compiled in */
#undef DEBUG
#define DEBUG
#define GLOG_LEVEL_MAX GLOG_LEVEL_DEBUG
#define GLOG_LEVEL_ASSERT GLOG_LEVEL_VERBOSE
#define GLOG_MODULE_NAME macro_module_8
#define UNIT 8
#define UNIT_MAX 4
#define UNIT_ASSERTS 0
#define UNIT_ASSERT_LEVEL 5
#include "../harness/macros_unit.h"
