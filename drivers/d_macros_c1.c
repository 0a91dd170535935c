/* C37: release build, nothing configured */
#undef DEBUG
#define UNIT 1
#define UNIT_MAX 4
#define UNIT_ASSERTS 0
#define UNIT_ASSERT_LEVEL 5
#include "../harness/macros_unit.h"
