#include "C05.hpp"
PAIR(double_int, double, int)
PAIR(float_double, float, double)
PAIR(float_float, float, float)
PAIR(long_int, long, int)
