#include "C11.hpp"
TYPE(cd, cd)
TYPE(float, float)
REAL_TYPE(int, int)
REAL_TYPE(float, float)
