#include "C24.hpp"
PAIR(complex, cd, cd)
PROGRAM(complex, cd)
TASK(complex, cd)
