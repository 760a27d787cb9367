#include "C16.hpp"
PROP(solve_double, 4) { c16::solving<double>(s); }
PROP(solve_float, 2) { c16::solving<float>(s); }
PROP(solve_int, 2) { c16::solving<int>(s); }
PROP(refuse_double, 1) { c16::refusing<double>(s); }
PROP(refuse_float, 1) { c16::refusing<float>(s); }
PROP(refuse_int, 1) { c16::refusing<int>(s); }
PROP(large_double, 1)
{
    if (s.draw(3) == 0) c16::large<double>(s);
    else c16::solving<double>(s);
}
PROP(large_float, 1)
{
    if (s.draw(3) == 0) c16::large<float>(s);
    else c16::solving<float>(s);
}
VERIF_MAIN
