#include "C27.hpp"
PAIR(double_complex, double, cd)
PAIR(complex_double, cd, double)
