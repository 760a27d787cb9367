#include "C05.hpp"
SINGLE(int, int)
SINGLE(double, double)
