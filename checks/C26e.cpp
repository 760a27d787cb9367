#include "C26.hpp"
PAIR(double_int, double, int)
