#include "C15.hpp"
PROP(exponential_double, 4) { c15::exponential<double>(s); }
PROP(exponential_float, 2) { c15::exponential<float>(s); }
PROP(special_double, 1) { c15::special<double>(s); }
VERIF_MAIN
