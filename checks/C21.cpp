#include "C21.hpp"
TYPE(double, double)
TYPE(int, int)
TYPE(complex, cd)
TYPE(float, float)
TYPE(size_t, std::size_t)
VERIF_MAIN
