#include "C09.hpp"
BIN(int_int, int, int, int)
BIN(int_double, int, double, double)
BIN(double_float, double, float, int)
BIN(cd_double, cd, double, cd)
COMB(cd_cd, cd, cd)
COMB(double_cd, double, cd)
