#include "evunit.h"
UNIT(unit_b)
