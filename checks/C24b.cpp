#include "C24.hpp"
PAIR(int, int, int)
