#include "C13.hpp"
TYPE(float, float)
FLOATING(float, float)
