#include "C25.hpp"
PAIR(complex_double, cd, double)
