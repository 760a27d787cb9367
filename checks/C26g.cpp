#include "C26.hpp"
PAIR(complex_float, cf, float)
