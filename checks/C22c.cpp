#include "C22.hpp"
TYPE(complex_float, cf)
TYPE(size_t, std::size_t)
TYPE(long, long)
