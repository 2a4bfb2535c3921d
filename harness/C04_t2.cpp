#include "C04_t.hpp"
MC(types_float) { type_row<float>(c); }
MC(types_double) { type_row<double>(c); }
