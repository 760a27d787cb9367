#include "C06.hpp"
bool c06::eq_b(double a, double b)
{
    return malg::feq::approximately_equal(a, b);
}
void c06::set_b(double t)
{
    malg::feq::tolerance() = t;
}
EQ(double_float, double, float)
EQ(long_long, long, long)
EQ(int_double, int, double)
EQ(cd_cd, cd, cd)
EQ(cd_double, cd, double)
EQ(double_cd, double, cd)
EQ(cf_cf, cf, cf)
