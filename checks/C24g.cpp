#include "C24.hpp"
PAIR(complex_float, cf, cf)
