#include "C25.hpp"
PAIR(int, int, int)
