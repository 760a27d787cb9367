#include "C10.hpp"
TYPE(int, int)
TYPE(double, double)
VERIF_MAIN
