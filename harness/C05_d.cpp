#include "C05.hpp"
MC(products_long) { products<long, long>(c); }
MC(products_int_long) { products<int, long>(c); }
MC(products_long_int) { products<long, int>(c); }
MC(products_long_double) { products<ld, ld>(c); }
MC(products_double_long_double) { products<double, ld>(c); }
