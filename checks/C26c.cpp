#include "C26.hpp"
PAIR(float, float, float)
