#include "C24.hpp"
PAIR(double_complex, double, cd)
