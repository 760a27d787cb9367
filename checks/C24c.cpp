#include "C24.hpp"
PAIR(float, float, float)
TASK(float, float)
