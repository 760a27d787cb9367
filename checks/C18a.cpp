#include "C18.hpp"
#define TYPE(n, T)                            \
    PROP(stacks_##n, 3) { c18::stacks<T>(s); } \
    PROP(roots_##n, 3) { c18::roots<T>(s); }   \
    PROP(matrices_##n, 3) { c18::matrices<T>(s); } \
    PROP(reduce_##n, 2) { c18::reduce<T>(s); }
TYPE(double, double)
TYPE(float, float)
VERIF_MAIN
