#include "C15.hpp"
PROP(exponential_cd, 3) { c15::exponential<cd>(s); }
PROP(exponential_cf, 1) { c15::exponential<cf>(s); }
PROP(special_cd, 1) { c15::special<cd>(s); }
PROP(special_float, 1) { c15::special<float>(s); }
