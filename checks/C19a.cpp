#include "C19.hpp"
PROP(hessenberg_double, 8) { c19::hessenberg<double>(s); }
PROP(givens_double, 8) { c19::givens<double>(s); }
PROP(vectors_double, 6) { c19::vectors<double>(s); }
PROP(shift_double, 3) { c19::shift<double>(s); }
PROP(triangular_double, 3) { c19::triangular<double>(s); }
PROP(eigenvectors_double, 2) { c19::eigenvectors<double>(s); }
VERIF_MAIN
