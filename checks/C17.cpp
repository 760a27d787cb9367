#include "C17.hpp"
PROP(discretize_double, 3) { c17::discretize<double>(s); }
PROP(discretize_float, 1) { c17::discretize<float>(s); }
PROP(simulation_double, 3) { c17::simulation<double>(s); }
PROP(simulation_float, 2) { c17::simulation<float>(s); }
PROP(simulation_int, 1) { c17::simulation<int>(s); }
PROP(empty_double, 1) { c17::empty<double>(s); }
VERIF_MAIN
