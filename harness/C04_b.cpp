#include "C04.hpp"
MC(matmat_complex) { matrix_matrix<cd, cd>(c); }
MC(matmat_complex_double) { matrix_matrix<cd, double>(c); }
MC(matmat_float_complex) { matrix_matrix<float, cd>(c); }
MC(matmat_cfloat_complex) { matrix_matrix<cf, cd>(c); }
