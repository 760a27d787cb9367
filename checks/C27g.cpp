#include "C27.hpp"
PAIR(float_int, float, int)
PAIR(int_long, int, long)
