#include "C04.hpp"
PROP(mat_mat_float_double, 3)
{
    c04::mat_mat<float, double>(s);
}
PROP(mat_scalar_float_double, 3)
{
    c04::mat_scalar<float, double>(s);
}
PROP(vec_vec_float_double, 2)
{
    c04::vec_vec<float, double>(s);
}
PROP(vec_scalar_float_double, 2)
{
    c04::vec_scalar<float, double>(s);
}
PROP(mat_mat_double_float, 3)
{
    c04::mat_mat<double, float>(s);
}
PROP(mat_scalar_double_float, 3)
{
    c04::mat_scalar<double, float>(s);
}
PROP(vec_vec_double_float, 2)
{
    c04::vec_vec<double, float>(s);
}
PROP(vec_scalar_double_float, 2)
{
    c04::vec_scalar<double, float>(s);
}
PROP(mat_mat_float_float, 3)
{
    c04::mat_mat<float, float>(s);
}
PROP(mat_scalar_float_float, 3)
{
    c04::mat_scalar<float, float>(s);
}
PROP(vec_vec_float_float, 2)
{
    c04::vec_vec<float, float>(s);
}
PROP(vec_scalar_float_float, 2)
{
    c04::vec_scalar<float, float>(s);
}
PROP(mat_mat_long_float, 3)
{
    c04::mat_mat<long, float>(s);
}
PROP(mat_scalar_long_float, 3)
{
    c04::mat_scalar<long, float>(s);
}
PROP(vec_vec_long_float, 2)
{
    c04::vec_vec<long, float>(s);
}
PROP(vec_scalar_long_float, 2)
{
    c04::vec_scalar<long, float>(s);
}
PROP(mat_mat_float_int, 3)
{
    c04::mat_mat<float, int>(s);
}
PROP(mat_scalar_float_int, 3)
{
    c04::mat_scalar<float, int>(s);
}
PROP(vec_vec_float_int, 2)
{
    c04::vec_vec<float, int>(s);
}
PROP(vec_scalar_float_int, 2)
{
    c04::vec_scalar<float, int>(s);
}

