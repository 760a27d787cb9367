#include "C27.hpp"
PAIR(double_float, double, float)
PAIR(long_long, long, long)
