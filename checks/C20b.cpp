#include "C20.hpp"
TYPE(float, float)
TYPE(complex_float, cf)
TYPE(size_t, std::size_t)
TYPE(long, long)
