#include "C14.hpp"
PROP(lu_double, 3) { c14::lu<double>(s); }
PROP(lu_float, 2) { c14::lu<float>(s); }
PROP(lu_cd, 2) { c14::lu<cd>(s); }
PROP(lu_int, 1) { c14::exact_lu<int>(s); }
PROP(lu_exact_double, 1) { c14::exact_lu<double>(s); }
PROP(lu_cf, 1) { c14::lu<cf>(s); }
