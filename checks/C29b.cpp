#include "C29.hpp"
STATELESS(complex, cd, double, cd)
