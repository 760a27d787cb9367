#include "C25.hpp"
PAIR(int_double, int, double)
