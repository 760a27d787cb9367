#include "C30.hpp"
NUMBERS(double, double)
PROP(control_double, 1)
{
    c30::control<double>(s);
}
PROP(generators_double, 1)
{
    c30::generators<double>(s);
}
PROP(eigen_double, 1)
{
    c30::eigen<double>(s);
}
VERIF_MAIN
