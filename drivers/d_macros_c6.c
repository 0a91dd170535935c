/* C37: asserts in release build */
#undef DEBUG
#define GLOG_LEVEL_MAX GLOG_LEVEL_INFO
#define GLOG_LEVEL_ASSERT GLOG_LEVEL_WARN
#define GLOG_MODULE_NAME macro_module_6
#define UNIT_PARENT
#define UNIT 6
#define UNIT_MAX 3
#define UNIT_ASSERTS 1
#define UNIT_ASSERT_LEVEL 2
#include "../harness/macros_unit.h"
