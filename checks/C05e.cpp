#include "C05.hpp"
SINGLE(cd, cd)
SINGLE(float, float)
