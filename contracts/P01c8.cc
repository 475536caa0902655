// P01, bounded companion (see P01c_all.h)
#include "P01c_all.h"
PLAIN_raw(rich3)
HASHED_raw(rich3)
