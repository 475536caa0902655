// P01, bounded companion (see P01c_all.h)
#include "P01c_all.h"
HASHED_offset_1(rich3)
