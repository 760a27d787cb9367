#include "C27.hpp"
PAIR(complex_int, cd, int)
PAIR(int_complex, int, cd)
