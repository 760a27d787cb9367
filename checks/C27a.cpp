#include "C27.hpp"
PAIR(int, int, int)
PAIR(complex, cd, cd)
VERIF_MAIN
