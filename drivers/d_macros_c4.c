/* C37: errors only, debug build */
#undef DEBUG
#define DEBUG
#define GLOG_LEVEL_MAX GLOG_LEVEL_ERR
#define GLOG_MODULE_NAME macro_module_4
#define UNIT_PARENT
#define UNIT 4
#define UNIT_MAX 1
#define UNIT_ASSERTS 1
#define UNIT_ASSERT_LEVEL 1
#include "../harness/macros_unit.h"
