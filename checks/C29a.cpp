#include "C29.hpp"
STATELESS(double, double, double, float)
PROP(tasks, 2)
{
    c29::tasks(s);
}
VERIF_MAIN
