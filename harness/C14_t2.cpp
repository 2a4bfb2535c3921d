#include "C14.hpp"
MC(types_long_double) { type_row<ld>(c); }
MC(types_cfloat) { type_row<cf>(c); }
MC(types_complex) { type_row<cd>(c); }
MC(types_clong) { type_row<cl>(c); }
