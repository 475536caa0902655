// P01, bounded companion (see P01c_all.h)
#include "P01c_all.h"
PLAIN_offset(rich3)
HASHED_offset_2(rich3)
