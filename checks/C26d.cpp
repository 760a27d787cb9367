#include "C26.hpp"
PAIR(complex, cd, cd)
SELF(complex, cd)
