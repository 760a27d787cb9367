#include "C11.hpp"
TYPE(int, int)
TYPE(double, double)
REAL_TYPE(double, double)
VERIF_MAIN
