// Included first in the 'portable' configuration: after the compiler's own
// headers, the macros that select compiler intrinsics are removed, as for a
// compiler that is neither GCC nor Clang.
#include <bits/stdc++.h>
#include <Eigen/Core>
#include "../mc.hpp"
#undef __GNUC__
#undef __clang__
#undef __BMI2__
