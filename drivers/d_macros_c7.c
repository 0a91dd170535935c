/* C37: everything, release build */
#undef DEBUG
#define GLOG_LEVEL_MAX GLOG_LEVEL_VERBOSE
#define GLOG_MODULE_NAME macro_module_7
#define UNIT 7
#define UNIT_MAX 5
#define UNIT_ASSERTS 0
#define UNIT_ASSERT_LEVEL 6
#include "../harness/macros_unit.h"
