#include "C27.hpp"
PAIR(float, float, float)
PAIR(complex_float, cf, cf)
