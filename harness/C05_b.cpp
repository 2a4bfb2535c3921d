#include "C05.hpp"
MC(products_complex) { products<cd, cd>(c); }
MC(products_complex_double) { products<cd, double>(c); }
MC(products_cfloat_complex) { products<cf, cd>(c); }
