#include "C25.hpp"
PAIR(float, float, float)
