#include "C24.hpp"
PAIR(double_int, double, int)
