#include "C04_t.hpp"
MC(types_int) { type_row<int>(c); }
MC(types_long) { type_row<long>(c); }
