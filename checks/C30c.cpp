#include "C30.hpp"
NUMBERS(complex, cd)
