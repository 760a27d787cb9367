#include "C05.hpp"
PAIR(int_int, int, int)
PAIR(double_double, double, double)
PAIR(int_double, int, double)
VERIF_MAIN
