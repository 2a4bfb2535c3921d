#include "C05.hpp"
MC(products_double) { products<double, double>(c); }
MC(products_int) { products<int, int>(c); }
MC(products_int_double) { products<int, double>(c); }
MC(products_float_double) { products<float, double>(c); }
