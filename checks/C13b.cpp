#include "C13.hpp"
TYPE(cd, cd)
FLOATING(cd, cd)
