#include "C04.hpp"
PROP(mat_mat_int_int, 3)
{
    c04::mat_mat<int, int>(s);
}
PROP(mat_scalar_int_int, 3)
{
    c04::mat_scalar<int, int>(s);
}
PROP(vec_vec_int_int, 2)
{
    c04::vec_vec<int, int>(s);
}
PROP(vec_scalar_int_int, 2)
{
    c04::vec_scalar<int, int>(s);
}
PROP(mat_mat_double_double, 3)
{
    c04::mat_mat<double, double>(s);
}
PROP(mat_scalar_double_double, 3)
{
    c04::mat_scalar<double, double>(s);
}
PROP(vec_vec_double_double, 2)
{
    c04::vec_vec<double, double>(s);
}
PROP(vec_scalar_double_double, 2)
{
    c04::vec_scalar<double, double>(s);
}
PROP(mat_mat_int_double, 3)
{
    c04::mat_mat<int, double>(s);
}
PROP(mat_scalar_int_double, 3)
{
    c04::mat_scalar<int, double>(s);
}
PROP(vec_vec_int_double, 2)
{
    c04::vec_vec<int, double>(s);
}
PROP(vec_scalar_int_double, 2)
{
    c04::vec_scalar<int, double>(s);
}
PROP(mat_mat_double_int, 3)
{
    c04::mat_mat<double, int>(s);
}
PROP(mat_scalar_double_int, 3)
{
    c04::mat_scalar<double, int>(s);
}
PROP(vec_vec_double_int, 2)
{
    c04::vec_vec<double, int>(s);
}
PROP(vec_scalar_double_int, 2)
{
    c04::vec_scalar<double, int>(s);
}
VERIF_MAIN
