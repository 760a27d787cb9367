#include "C19.hpp"
PROP(hessenberg_float, 4) { c19::hessenberg<float>(s); }
PROP(givens_float, 4) { c19::givens<float>(s); }
PROP(vectors_float, 3) { c19::vectors<float>(s); }
PROP(shift_float, 1) { c19::shift<float>(s); }
