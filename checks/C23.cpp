#include <cfloat>
#include "C23.hpp"
PROP(linspace_double, 4) { c23::linspace<double>(s); }
PROP(linspace_float, 4) { c23::linspace<float>(s); }
PROP(linspace_int, 2) { c23::linspace_integral<int>(s); }
PROP(linspace_long, 2) { c23::linspace_integral<long>(s); }
PROP(linspace_unsigned, 2) { c23::linspace_integral<unsigned>(s); }
PROP(logspace_double, 4) { c23::logspace<double>(s); }
PROP(logspace_float, 4) { c23::logspace<float>(s); }
PROP(basis, 1)
{
    switch (s.draw(3)) {
    case 0: CHECK(malg::utility::basis<double>() == FLT_RADIX, << "basis"); break;
    case 1: CHECK(malg::utility::basis<float>() == FLT_RADIX, << "basis"); break;
    default: CHECK(malg::utility::basis<long double>() == FLT_RADIX, << "basis"); break;
    }
}
PROP(fixed_double, 2) { c23::fixed<double>(s); }
PROP(fixed_float, 2) { c23::fixed<float>(s); }
PROP(fixed_int, 2) { c23::fixed<int>(s); }
PROP(fixed_size_t, 1) { c23::fixed<std::size_t>(s); }
PROP(fixed_complex, 2) { c23::fixed<cd>(s); }
PROP(random_double, 1) { c23::random<double>(s); }
PROP(random_float, 1) { c23::random<float>(s); }
PROP(random_int, 1) { c23::random<int>(s); }
PROP(random_unsigned, 1) { c23::random<unsigned>(s); }
PROP(random_complex, 1) { c23::random<cd>(s); }
PROP(random_complex_float, 1) { c23::random<cf>(s); }
VERIF_MAIN
