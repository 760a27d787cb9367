#include "C27.hpp"
using cld = std::complex<long double>;
PAIR(long_double, long double, long double)
PAIR(complex_long_double, cld, cld)
PAIR(double_long_double, double, long double)
WIDE(long, long, long double)
WIDE(complex, cld, long double)
