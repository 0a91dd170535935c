/* C37: debug build with a module */
#undef DEBUG
#define DEBUG
#define GLOG_MODULE_NAME macro_module_2
#define UNIT 2
#define UNIT_MAX 5
#define UNIT_ASSERTS 1
#define UNIT_ASSERT_LEVEL 1
#include "../harness/macros_unit.h"
