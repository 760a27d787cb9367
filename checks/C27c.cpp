#include "C27.hpp"
PAIR(double_int, double, int)
PAIR(int_double, int, double)
