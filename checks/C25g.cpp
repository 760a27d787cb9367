#include "C25.hpp"
PAIR(double_complex, double, cd)
