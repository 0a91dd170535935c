/* C37: no messages at all */
#undef DEBUG
#define GLOG_LEVEL_MAX GLOG_LEVEL_NONE
#define GLOG_MODULE_NAME macro_module_3
#define UNIT_PARENT
#define UNIT 3
#define UNIT_MAX 0
#define UNIT_ASSERTS 0
#define UNIT_ASSERT_LEVEL 1
#include "../harness/macros_unit.h"
