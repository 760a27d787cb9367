#include "C26.hpp"
PAIR(double_complex, double, cd)
