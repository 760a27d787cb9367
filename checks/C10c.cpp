#include "C10.hpp"
PAIR(int_double, int, double)
PAIR(float_double, float, double)
PAIR(cd_double, cd, double)
PAIR(double_cd, double, cd)
