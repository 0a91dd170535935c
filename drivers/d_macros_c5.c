/* C37: warnings, release build */
#undef DEBUG
#define GLOG_LEVEL_MAX GLOG_LEVEL_WARN
#define UNIT 5
#define UNIT_MAX 2
#define UNIT_ASSERTS 0
#define UNIT_ASSERT_LEVEL 3
#include "../harness/macros_unit.h"
