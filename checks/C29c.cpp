#include "C29.hpp"
STATELESS(int, int, int, float)
