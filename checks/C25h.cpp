#include "C25.hpp"
PAIR(float_double, float, double)
