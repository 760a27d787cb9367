#include "C25.hpp"
PAIR(double, double, double)
OVERLAP(double, double)
OVERLAP(int, int)
OVERLAP(complex, cd)
VERIF_MAIN
