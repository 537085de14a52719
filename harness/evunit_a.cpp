#include "evunit.h"
UNIT(unit_a)
