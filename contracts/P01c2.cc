// P01, bounded companion (see P01c_all.h)
#include "P01c_all.h"
PLAIN_raw(rich)
HASHED_raw(rich)
