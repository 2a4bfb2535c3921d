#include "C04_t.hpp"
MC(types_complex) { type_row<cd>(c); }
MC(types_clong) { type_row<cl>(c); }
