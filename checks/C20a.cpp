#include "C20.hpp"
TYPE(double, double)
TYPE(complex, cd)
TYPE(int, int)
VERIF_MAIN
