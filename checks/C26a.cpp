#include "C26.hpp"
PAIR(double, double, double)
SELF(double, double)
GENERATORS(double, double)
GENERATORS(int, int)
GENERATORS(complex, cd)
VERIF_MAIN
