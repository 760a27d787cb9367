#include "C22.hpp"
TYPE(int, int)
TYPE(float, float)
PROP(models_float, 1) { c22::models<float>(s); }
