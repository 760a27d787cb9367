#include "C25.hpp"
PAIR(complex, cd, cd)
