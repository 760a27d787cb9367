#include "C30.hpp"
NUMBERS(float, float)
PROP(control_float, 1)
{
    c30::control<float>(s);
}
PROP(generators_float, 1)
{
    c30::generators<float>(s);
}
