#include "C18.hpp"
PROP(placement_double, 4) { c18::placement<double>(s); }
PROP(placement_int, 3) { c18::placement<int>(s); }
PROP(placement_cd, 3) { c18::placement<cd>(s); }
PROP(placement_float, 2) { c18::placement<float>(s); }
PROP(refusals_double, 1) { c18::refusals<double>(s); }
PROP(refusals_int, 1) { c18::refusals<int>(s); }
