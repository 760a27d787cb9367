#include "C26.hpp"
PAIR(int, int, int)
SELF(int, int)
