#include "C04.hpp"
MC(matmat_long) { matrix_matrix<long, long>(c); }
MC(matmat_int_long) { matrix_matrix<int, long>(c); }
MC(matmat_long_int) { matrix_matrix<long, int>(c); }
MC(matmat_long_double) { matrix_matrix<ld, ld>(c); }
MC(matmat_double_long_double) { matrix_matrix<double, ld>(c); }
MC(matmat_long_double_double) { matrix_matrix<ld, double>(c); }
