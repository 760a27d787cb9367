#include "C13.hpp"
TYPE(int, int)
TYPE(double, double)
FLOATING(double, double)
VERIF_MAIN
