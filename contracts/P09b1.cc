// P09, bounded companion (see P09b_all.h)
#include "P09b_all.h"
BOTH(2)
BOTH(3)
