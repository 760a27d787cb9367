#include "C09.hpp"
PARTS(int, int)
PARTS(double, double)
PARTS(float, float)
PARTS(cd, cd)
PARTS(cf, cf)
PRJ(double_double, double, double)
PRJ(float_double, float, double)
PRJ(cd_double, cd, double)
