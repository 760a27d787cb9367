#include "C22.hpp"
TYPE(double, double)
TYPE(complex, cd)
PROP(models_double, 2) { c22::models<double>(s); }
VERIF_MAIN
