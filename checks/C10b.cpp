#include "C10.hpp"
TYPE(cd, cd)
PAIR(int_int, int, int)
PAIR(double_double, double, double)
