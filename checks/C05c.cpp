#include "C05.hpp"
PAIR(cd_cd, cd, cd)
PAIR(cd_double, cd, double)
PAIR(double_cd, double, cd)
PAIR(cf_cd, cf, cd)
