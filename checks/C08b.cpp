#include "C08.hpp"
TYPE(float, float)
TYPE(cd, cd)
TYPE(cf, cf)
FLOATING(cd, cd)
FLOATING(float, float)
PROP(neighbours_long, 1)
{
    c08::neighbours<long>(s);
}
PROP(neighbours_long_double, 1)
{
    c08::neighbours<long double>(s);
}
