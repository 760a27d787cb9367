#include "C30.hpp"
NUMBERS(complex_float, cf)
