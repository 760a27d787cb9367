// Every header of the library, in the storage order under test: with
// VERIF_COL_MAJOR the documented switch of matrix_base.hpp is turned off (the
// header defines ROW_MAJOR itself, and is guarded, so undefining the macro after
// it is the same as commenting it out).
#pragma once
#include "malg/matrix_base.hpp"
#ifdef VERIF_COL_MAJOR
#undef ROW_MAJOR
#endif
#include "malg/complex_math.hpp"
#include "malg/control/control.hpp"
#include "malg/eigen.hpp"
#include "malg/feq.hpp"
#include "malg/io.hpp"
#include "malg/linalg.hpp"
#include "malg/math.hpp"
#include "malg/matrix.hpp"
#include "malg/type_traits.hpp"
#include "malg/utility.hpp"
#include "malg/vector.hpp"
#include "malg/view.hpp"
