#include "C04_t.hpp"
MC(types_long_double) { type_row<ld>(c); }
MC(types_cfloat) { type_row<cf>(c); }
