#include "C06.hpp"
bool c06::eq_a(double a, double b)
{
    return malg::feq::approximately_equal(a, b);
}
void c06::set_a(double t)
{
    malg::feq::tolerance() = t;
}
EQ(int_int, int, int)
EQ(double_double, double, double)
EQ(float_float, float, float)
EQ(long_int, long, int)
SCA(double_double, double, double)
SCA(float_double, float, double)
SCA(int_double, int, double)
SCA(cd_cd, cd, cd)
VERIF_MAIN
