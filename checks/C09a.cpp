#include "C09.hpp"
UN(int_int, int, int)
UN(double_double, double, double)
UN(int_double, int, double)
UN(double_bool, double, bool)
UN(cd_cd, cd, cd)
UN(double_cd, double, cd)
COMB(int_int, int, int)
COMB(double_double, double, double)
COMB(int_double, int, double)
VERIF_MAIN
