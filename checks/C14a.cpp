#include "C14.hpp"
PROP(qr_double, 4) { c14::qr<double>(s); }
PROP(qr_float, 2) { c14::qr<float>(s); }
PROP(qr_int, 2) { c14::qr<int>(s); }
VERIF_MAIN
