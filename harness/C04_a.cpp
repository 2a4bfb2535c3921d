#include "C04.hpp"
MC(matmat_double) { matrix_matrix<double, double>(c); }
MC(matmat_int_double) { matrix_matrix<int, double>(c); }
MC(matmat_double_int) { matrix_matrix<double, int>(c); }
MC(matmat_float_double) { matrix_matrix<float, double>(c); }
MC(matmat_int) { matrix_matrix<int, int>(c); }
