#include "C14.hpp"
MC(types_int) { type_row<int>(c); }
MC(types_long) { type_row<long>(c); }
MC(types_float) { type_row<float>(c); }
MC(types_double) { type_row<double>(c); }
