#include "C04.hpp"
PROP(mat_mat_cd_cd, 3)
{
    c04::mat_mat<cd, cd>(s);
}
PROP(mat_scalar_cd_cd, 3)
{
    c04::mat_scalar<cd, cd>(s);
}
PROP(vec_vec_cd_cd, 2)
{
    c04::vec_vec<cd, cd>(s);
}
PROP(vec_scalar_cd_cd, 2)
{
    c04::vec_scalar<cd, cd>(s);
}
PROP(mat_mat_cd_double, 3)
{
    c04::mat_mat<cd, double>(s);
}
PROP(mat_scalar_cd_double, 3)
{
    c04::mat_scalar<cd, double>(s);
}
PROP(vec_vec_cd_double, 2)
{
    c04::vec_vec<cd, double>(s);
}
PROP(vec_scalar_cd_double, 2)
{
    c04::vec_scalar<cd, double>(s);
}
PROP(mat_mat_cf_cd, 3)
{
    c04::mat_mat<cf, cd>(s);
}
PROP(mat_scalar_cf_cd, 3)
{
    c04::mat_scalar<cf, cd>(s);
}
PROP(vec_vec_cf_cd, 2)
{
    c04::vec_vec<cf, cd>(s);
}
PROP(vec_scalar_cf_cd, 2)
{
    c04::vec_scalar<cf, cd>(s);
}
PROP(mat_mat_cd_int, 3)
{
    c04::mat_mat<cd, int>(s);
}
PROP(mat_scalar_cd_int, 3)
{
    c04::mat_scalar<cd, int>(s);
}
PROP(vec_vec_cd_int, 2)
{
    c04::vec_vec<cd, int>(s);
}
PROP(vec_scalar_cd_int, 2)
{
    c04::vec_scalar<cd, int>(s);
}
PROP(mat_mat_cf_float, 3)
{
    c04::mat_mat<cf, float>(s);
}
PROP(mat_scalar_cf_float, 3)
{
    c04::mat_scalar<cf, float>(s);
}
PROP(vec_vec_cf_float, 2)
{
    c04::vec_vec<cf, float>(s);
}
PROP(vec_scalar_cf_float, 2)
{
    c04::vec_scalar<cf, float>(s);
}
PROP(mat_mat_cd_cf, 3)
{
    c04::mat_mat<cd, cf>(s);
}
PROP(mat_scalar_cd_cf, 3)
{
    c04::mat_scalar<cd, cf>(s);
}
PROP(vec_vec_cd_cf, 2)
{
    c04::vec_vec<cd, cf>(s);
}
PROP(vec_scalar_cd_cf, 2)
{
    c04::vec_scalar<cd, cf>(s);
}
PROP(mat_mat_double_cd, 1)
{
    c04::mat_mat<double, cd>(s);
}
PROP(mat_scalar_double_cd, 1)
{
    c04::mat_scalar<double, cd>(s);
}
PROP(vec_vec_double_cd, 1)
{
    c04::vec_vec<double, cd>(s);
}
PROP(vec_scalar_double_cd, 1)
{
    c04::vec_scalar<double, cd>(s);
}
PROP(mat_mat_int_cd, 1)
{
    c04::mat_mat<int, cd>(s);
}
PROP(mat_scalar_int_cd, 1)
{
    c04::mat_scalar<int, cd>(s);
}
PROP(vec_vec_int_cd, 1)
{
    c04::vec_vec<int, cd>(s);
}
PROP(vec_scalar_int_cd, 1)
{
    c04::vec_scalar<int, cd>(s);
}
PROP(mat_mat_float_cd, 1)
{
    c04::mat_mat<float, cd>(s);
}
PROP(mat_scalar_float_cd, 1)
{
    c04::mat_scalar<float, cd>(s);
}
PROP(vec_vec_float_cd, 1)
{
    c04::vec_vec<float, cd>(s);
}
PROP(vec_scalar_float_cd, 1)
{
    c04::vec_scalar<float, cd>(s);
}
PROP(mat_mat_double_cf, 1)
{
    c04::mat_mat<double, cf>(s);
}
PROP(mat_scalar_double_cf, 1)
{
    c04::mat_scalar<double, cf>(s);
}
PROP(vec_vec_double_cf, 1)
{
    c04::vec_vec<double, cf>(s);
}
PROP(vec_scalar_double_cf, 1)
{
    c04::vec_scalar<double, cf>(s);
}

