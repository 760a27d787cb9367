#include "C06.hpp"
bool c06::eq_c(double a, double b)
{
    return malg::feq::approximately_equal(a, b);
}
void c06::set_c(double t)
{
    malg::feq::tolerance() = t;
}
ORD(int_int, int, int)
ORD(long_long, long, long)
ORD(double_double, double, double)
ORD(int_double, int, double)
ORD(float_double, float, double)
SINGLE(int, int)
SINGLE(double, double)
SINGLE(float, float)
SINGLE(cd, cd)
